//! C18..C24: the dataflow plugin functions
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::p_codec::{check_emitted, fresh, vary, huge};
use crate::plug;
use crate::rng::Rng;
use crate::schema::*;
use dataflow_rs::engine::FunctionConfig;
use dataflow_rs::engine::error::DataflowError;
use dataflow_rs::engine::message::Message;
use dataflow_rs::{Engine, Workflow};
use mx_message::mx_envelope::MxMessage;
use serde_json::{Map, Value, json};
use std::sync::Arc;

pub const FUNCS: [&str; 4] = ["parse_mx", "publish_mx", "validate_mx", "generate_mx"];

/// everything of a message a caller can see
pub fn snapshot(m: &Message) -> Value {
    json!({"id": m.id, "payload": *m.payload, "context": m.context, "audit": m.audit_trail.len(), "errors": m.errors.len()})
}
fn random_value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 7 } else { 9 }) {
        0 => Value::Null,
        1 => json!(r.chance(0.5)),
        2 => json!(r.next() % 1000),
        3 => json!(-0.5),
        4 => json!(hostile(r)),
        5 => json!(""),
        6 => json!("<Document/>"),
        7 => Value::Array((0..r.below(4)).map(|_| random_value(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (hostile(r), random_value(r, depth - 1))).collect()),
    }
}
/// a message with unrelated content in every part
fn busy_message(r: &mut Rng, data: Value, payload: Value) -> Message {
    let mut m = plug::message(data, payload);
    *m.metadata_mut() = json!({"trace": hostile(r), "validation_old": {"n": 1}});
    m.context["temp_data"] = json!({"t": random_value(r, 2)});
    m.invalidate_context_cache();
    if r.chance(0.5) {
        let _ = m.get_context_arc();
    }
    m
}
/// a name for a field of the data: ordinary ones, ones that look like paths or mean something
/// elsewhere, and texts of the source
fn field_name(r: &mut Rng, dict: &crate::dict::Dict, usual: &[&str]) -> String {
    match r.below(20) {
        0..=7 => (*r.pick(usual)).to_string(),
        8..=14 => (*r.pick(&[
            "data.x", "data.", "data", "metadata", "metadata.x", "metadata.validation", "temp_data", "temp_data.x", "payload", "payload.x", "in.0", "a.b.c", ".", "..", "a.", ".a", "a/b", "/a", "~1", "a[0]", "[0]", "0", "1", "-1", "#a", "$.a", "$", "@", "*", "a b", " ", " a", "a ", "\ta", "a\n", "A", "É", "日本", "\u{301}x", "\"", "'", "\\", "\\n", "mx_message", "json_data", "message_type", "validation", "valid", "errors", "progress", "Document", "AppHdr", "MxMessage", "target", "source", "output", "result", "null", "true", "{}", "{{x}}", "${x}", "%s", "__proto__", "context", "mx_json", "sample_json", "sample_xml", "validation_result",
        ])).to_string(),
        15 => "n".repeat(*r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000])),
        16 | 17 => {
            let l = if !dict.new_strings.is_empty() && r.chance(0.7) { &dict.new_strings } else { &dict.strings };
            if l.is_empty() {
                return "out".into();
            }
            let base = r.pick(l).clone();
            match r.below(4) {
                0 => format!("{base}x"),
                1 => format!("x{base}"),
                _ => base,
            }
        }
        _ => hostile(r),
    }
}
/// what a target may have held before: of the same or another shape, with the same or other keys
fn old_value(r: &mut Rng, like: &Value) -> Value {
    match r.below(9) {
        0 => Value::Null,
        1 => json!("old text"),
        2 => json!([1, {"x": 2}]),
        3 => json!({"old": {"n": [1, 2]}, "k1": "old", "k3": {"a": 1}, "a": {"z": 1}, "AppHdr": {"BizMsgIdr": "OLD", "Zz": 1}, "Document": {"Zz": {}}, "valid": false, "errors": ["old"], "mx_message": "<old/>"}),
        4 => like.clone(),
        5 => {
            // the same with one thing more
            let mut v = like.clone();
            match &mut v {
                Value::Object(o) => { o.insert("left_over".into(), json!("old")); }
                Value::Array(a) => a.push(json!("old")),
                Value::String(s) => s.push_str("old"),
                _ => {}
            }
            v
        }
        6 => json!({}),
        7 => json!(true),
        _ => random_value(r, 3),
    }
}
fn small(c: &mut Case) -> (&'static MT, Msg) {
    let mt = &MTS[c.rng.below(MTS.len())];
    let mut g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: 0.04, budget: 40, ..Cfg::default() }, None);
    no_literal(c, mt, &mut g);
    (mt, g)
}
fn env(c: &Case, mt: &MT, g: &Msg) -> String {
    envelope(hdr_module(c.run.s), c.run.s.doc(mt.module), mt.tag, g, &EnvStyle::plain())
}
fn doc(c: &Case, mt: &MT, g: &Msg) -> String {
    document_only(c.run.s.doc(mt.module), mt.tag, &g.doc, &EnvStyle::plain())
}
/// without the namespace declarations, which belong to the text and not to the content
fn strip_ns(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        o.remove("@xmlns");
        o.remove("@xmlns:xsi");
    }
    v
}

// C18 -----------------------------------------------------------------
pub fn c18(run: &Run) {
    run.rule("case = one plugin function called in a way that cannot succeed: a configuration of another kind, missing or wrongly typed source/target, a source that is absent or holds no message, an unreadable message, an unusable generation scenario, message data or metadata that is no object; monitored: a validation error is returned (never a panic, never success) and every part of the message is exactly as before; non-trivial = distinct (function, misuse, message)");
    let n = if run.thorough() { 20000 } else { 8000 };
    run.rounds(|_| {
        run.par("misuse", n, |c| {
            let f = FUNCS[c.idx as usize % 4];
            let (mt, g) = small(c);
            let good = match f {
                "publish_mx" => msg_json(c.run.s, mt, &g),
                _ => json!(env(c, mt, &g)),
            };
            let scen = json!({"variables": {}, "schema": {"a": 1, "b": [true]}});
            let mut data = json!({"in": good, "keep": random_value(&mut c.rng, 2), "out": random_value(&mut c.rng, 1)});
            let mut payload = if f == "generate_mx" { scen } else { random_value(&mut c.rng, 1) };
            let mut cfg = json!({"source": "in", "target": "out"});
            let mut special: Option<FunctionConfig> = None;
            let mut bad_meta = false;
            let r = &mut c.rng;
            let gen_ = f == "generate_mx";
            let kind = match r.below(9) {
                0 => {
                    special = Some(if r.chance(0.5) {
                        serde_json::from_value::<FunctionConfig>(json!({"name": "map", "input": {"mappings": []}})).unwrap()
                    } else {
                        serde_json::from_value::<FunctionConfig>(json!({"name": "validation", "input": {"rules": []}})).unwrap()
                    });
                    
                    "configuration of another kind"
                }
                1 => {
                    cfg = random_value(r, 1);
                    if let Some(o) = cfg.as_object_mut() {
                        o.remove("target");
                    }
                    "arbitrary configuration"
                }
                2 if !gen_ => {
                    cfg.as_object_mut().unwrap().remove("source");
                    if r.chance(0.3) {
                        cfg["input"] = json!("in");
                    }
                    "source missing"
                }
                2 | 3 => {
                    cfg.as_object_mut().unwrap().remove("target");
                    if r.chance(0.3) {
                        cfg["output"] = json!("out");
                    }
                    "target missing"
                }
                4 => {
                    let k = if gen_ || r.chance(0.5) { "target" } else { "source" };
                    cfg[k] = r.pick(&[json!(null), json!(1), json!(["in"]), json!({"in": 1}), json!(true)]).clone();
                    "source or target of another type"
                }
                5 if gen_ => {
                    payload = r.pick(&[json!(null), json!("text"), json!(7), json!({}), json!({"variables": {}}), json!({"schema": null}), json!({"variables": [], "schema": {"a": 1}}), json!({"variables": {"x": null}, "schema": {"a": 1}}), json!({"variables": {"": 1}, "schema": {"a": 1}}), json!({"schema": {"a": null}}), json!({"schema": {"a": {"fake": []}}}), json!({"schema": {"a": {"fake": ["u8", 9, 1]}}}), json!({"schema": {"a": {"fake": ["no_such_method_zz"]}}}), json!([1, 2])]).clone();
                    "unusable scenario"
                }
                5 => {
                    let name = (*r.pick(&["", "nope", "In", "in ", "data.in", "$", "in.0", "context"])).to_string();
                    cfg["source"] = json!(if f == "publish_mx" && r.chance(0.3) { "payload".to_string() } else { name });
                    "source absent"
                }
                6 if !gen_ => {
                    data["in"] = r.pick(&[json!(null), json!(3), json!(false), json!([]), json!(["x"]), json!({}), json!({"mx": "x"}), json!({"mx_message": 3}), json!({"mx_message": null}), json!({"mx_message": ["a"]}), json!({"message": "a"})]).clone();
                    "source of another type"
                }
                7 if f == "parse_mx" => {
                    let t = data["in"].as_str().unwrap().to_string();
                    data["in"] = json!(match r.below(6) {
                        0 => String::new(),
                        1 => "plain text".to_string(),
                        2 => t.replace("</Document>", ""),
                        3 => t.replace("MsgDefIdr", "MsgDefIdx"),
                        4 => t[..(0..=t.len() / 2).rev().find(|k| t.is_char_boundary(*k)).unwrap()].to_string(),
                        _ => t.replace(mt.tag, "Unknown"),
                    });
                    "unreadable message"
                }
                7 if f == "publish_mx" => {
                    let k = (*r.pick(&["AppHdr", "Document"])).to_string();
                    match r.below(4) {
                        0 => { data["in"].as_object_mut().unwrap().remove(&k); }
                        1 => data["in"][&k] = random_value(r, 1),
                        2 => { let x = data["in"][&k].clone(); data["in"] = json!({"wrapped": {k: x}}) }
                        _ => data["in"] = json!(data["in"].to_string()),
                    }
                    "unreadable message"
                }
                8 if f == "publish_mx" => {
                    data = r.pick(&[json!(null), json!([]), json!("in"), json!(4)]).clone();
                    "data is no object"
                }
                8 if gen_ => {
                    data = r.pick(&[json!(null), json!([1]), json!("out"), json!(4)]).clone();
                    "data is no object"
                }
                8 => {
                    payload = data["in"].clone();
                    cfg["source"] = json!("payload");
                    if r.chance(0.5) {
                        data = r.pick(&[json!(null), json!([1]), json!("out"), json!(4)]).clone();
                        "data is no object"
                    } else {
                        bad_meta = true;
                        "metadata is no object"
                    }
                }
                _ => {
                    cfg = json!(null);
                    "no configuration"
                }
            };
            let mut m = busy_message(&mut c.rng, data, payload);
            if bad_meta {
                *m.metadata_mut() = c.rng.pick(&[json!(null), json!([1]), json!("x")]).clone();
                m.invalidate_context_cache();
            }
            let before = snapshot(&m);
            let cfg = special.unwrap_or_else(|| plug::custom(f, cfg));
            c.eval(format!("{f}|{kind}|{before}|{cfg:?}").as_bytes());
            c.saw("misuses", format!("{f}|{kind}").as_bytes());
            let res = no_panic(|| plug::call(f, &mut m, &cfg));
            let det = json!({"function": f, "misuse": kind, "config": clip(&format!("{cfg:?}"), 500), "message": clip(&before.to_string(), 3000)});
            match res {
                Err(p) => return c.fail(&format!("C18|panic|{f}|{kind}"), json!({"panic": p, "case": det})),
                Ok(Ok((s, ch))) => return c.fail(&format!("C18|success|{f}|{kind}"), json!({"status": s, "changes": format!("{ch:?}").chars().take(500).collect::<String>(), "case": det})),
                Ok(Err(DataflowError::Validation(t))) if !t.is_empty() => {
                    c.saw("distinct_error_texts", t.as_bytes());
                }
                Ok(Err(e)) => c.fail(&format!("C18|error of another kind|{f}|{kind}"), json!({"error": format!("{e:?}"), "case": det})),
            }
            if let Some(d) = json_diff(&before, &snapshot(&m), "") {
                c.fail(&format!("C18|message changed by a failing call|{f}|{kind}"), json!({"difference": d, "case": det}));
            }
            let view = m.get_context_arc();
            if *view != m.context {
                c.fail(&format!("C18|stale context after a failing call|{f}|{kind}"), json!({"case": det}));
            }
            c.sample(|| det);
        });
    });
}

// C19 -----------------------------------------------------------------
pub fn c19(run: &Run) {
    run.rule("case = one message (every element path of every type) given to parse_mx as a full envelope or a Document alone, in a random layout, from a text field, an object with mx_message, or the payload; monitored: the stored JSON is exactly the content of the message, the metadata names its type; a separate stream uses texts holding a literal backslash-n; non-trivial = distinct message texts");
    let sp = Space::new(run.s);
    let n = sp.paths.len() as u64;
    let parse = |c: &mut Case, mt: &MT, g: &Msg, name: &str, literal: bool| {
        let s = c.run.s;
        let with_env = c.rng.chance(0.6);
        let st = if c.rng.chance(0.4) { EnvStyle::plain() } else { EnvStyle::random(&mut c.rng, mt.full) };
        let x = if with_env { envelope(hdr_module(s), s.doc(mt.module), mt.tag, g, &st) } else { document_only(s.doc(mt.module), mt.tag, &g.doc, &st) };
        let all = msg_json(s, mt, g);
        let want = if with_env { all } else { json!({"Document": all["Document"]}) };
        let tgt = field_name(&mut c.rng, c.run.dict, &["out", "mx_json", "in", "a.b", "validation", ""]);
        let way = c.rng.below(5);
        let (data, payload, src) = match way {
            0 | 1 => (json!({"in": x}), Value::Null, "in"),
            2 => (json!({"in": {"mx_message": x, "json_data": {"x": 1}, "message_type": "zz"}}), json!("other"), "in"),
            3 => (json!({"payload": "not this", "out": {"old": 1}}), json!(x), "payload"),
            _ => (json!({"payload": "the payload, not this field"}), json!(x), "payload"),
        };
        let mut data = data;
        let mut src = src.to_string();
        if src == "in" && c.rng.chance(0.5) {
            src = field_name(&mut c.rng, c.run.dict, &["in", "xml"]);
            if src == "payload" {
                src = "in".into();
            }
            let v = data["in"].take();
            data = json!({"in": "not this", "keep": {"x": [null, 1]}});
            data[&src] = v;
        }
        let src = src.as_str();
        c.eval(x.as_bytes());
        c.saw("source_kinds", format!("{way}{with_env}").as_bytes());
        c.saw("field_names", format!("{src}>{tgt}").as_bytes());
        if tgt != src && c.rng.chance(0.5) {
            data[&tgt] = old_value(&mut c.rng, &want);
        }
        let mut m = plug::message(data.clone(), payload);
        if c.rng.chance(0.3) {
            m.metadata_mut()[&tgt] = old_value(&mut c.rng, &json!({"message_type": "pacs.008", "format": "xml"}));
            m.invalidate_context_cache();
        }
        let r = plug::call("parse_mx", &mut m, &plug::custom("parse_mx", json!({"source": src, "target": tgt})));
        let kind = if with_env { "envelope" } else { "Document" };
        if let Err(e) = r {
            return c.fail(&format!("C19|refused|{kind}|{name}"), json!({"error": e.to_string(), "xml": clip(&x, 6000)}));
        }
        let got = strip_ns(&m.data()[&tgt]);
        if let Some(d) = json_diff(&want, &got, "") {
            if literal {
                // the literal backslash-n comes back as a line break (and at the ends of a text disappears)
                fn turn(v: &Value) -> Value {
                    match v {
                        Value::String(s) => json!(s.replace("\\n", "\n").trim()),
                        Value::Array(a) => Value::Array(a.iter().map(turn).collect()),
                        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), turn(v))).collect()),
                        v => v.clone(),
                    }
                }
                if json_diff(&turn(&want), &turn(&got), "").is_none() {
                    return c.fail("C19|literal backslash-n in a text becomes a line break", json!({"difference": d, "xml": clip(&x, 6000)}));
                }
            }
            return c.fail(&format!("C19|differs|{kind}|{name}"), json!({"difference": d, "xml": clip(&x, 6000)}));
        }
        let meta = &m.metadata()[&tgt];
        if *meta != json!({"message_type": mt.short, "format": "json"}) {
            c.fail(&format!("C19|metadata|{kind}|{}", mt.short), json!({"metadata": meta}));
        }
        // everything else in the data is as before
        let mut rest = m.data().clone();
        let mut old = data;
        rest.as_object_mut().unwrap().remove(&tgt);
        old.as_object_mut().unwrap().remove(&tgt);
        if rest != old {
            c.fail("C19|other data changed", json!({"before": clip(&old.to_string(), 2000), "after": clip(&rest.to_string(), 2000)}));
        }
        c.count("elements_compared", (g.doc.count() + g.hdr.count()) as u64);
        c.sample(|| json!({"message": name, "kind": kind, "source": src, "xml": clip(&x, 400)}));
    };
    run.rounds(|_| {
        run.par("path", n, |c| {
            let mut cfg = crate::p_codec::vary_lax(c);
            if c.rng.chance(0.2) {
                cfg.text = Text::Hostile;
            }
            let (t, p) = &sp.paths[c.idx as usize];
            let hp = &sp.hdr_paths[c.rng.below(sp.hdr_paths.len())];
            let mt = &MTS[*t];
            let name = format!("{}:{}", mt.short, c.run.s.doc(mt.module).names(p));
            let mut g = message(c.run.s, mt, p, hp, &mut c.rng, &cfg, Some(c.run.dict));
            no_literal(c, mt, &mut g);
            c.saw("element_paths", name.as_bytes());
            parse(c, mt, &g, &name, false);
        });
        run.par("huge", 2 * MTS.len() as u64, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let Some((mut g, name)) = huge(c, mt) else { return };
            no_literal(c, mt, &mut g);
            parse(c, mt, &g, &name, false);
        });
        run.par("literal", 60, |c| {
            let (mt, mut g) = small(c);
            let h = hdr_module(c.run.s);
            let v = format!("A{}\\n{}B", c.rng.below(10), c.rng.below(10));
            set_text(h, &mut g.hdr, "BizMsgIdr", &v);
            // in a Document-only text the header is not there: put one into the document too
            let m = c.run.s.doc(mt.module);
            let mut done = false;
            g.doc.walk_mut(m, &mut |f, n| {
                if !done && matches!(n.body, Body::Str(_)) && !f.xml.starts_with('@') {
                    n.body = Body::Str(v.clone());
                    done = true;
                }
            });
            parse(c, mt, &g, "literal", true);
        });
    });
}
/// keep the literal backslash-n out of a message
pub fn no_literal(c: &Case, mt: &MT, g: &mut Msg) {
    let mut fix = |_: &crate::schema::Field, n: &mut Node| {
        if let Body::Str(v) = &mut n.body {
            if v.contains("\\n") {
                *v = v.replace("\\n", "/n");
            }
        }
    };
    g.doc.walk_mut(c.run.s.doc(mt.module), &mut fix);
    g.hdr.walk_mut(hdr_module(c.run.s), &mut fix);
}

// C20 -----------------------------------------------------------------
pub fn c20(run: &Run) {
    run.rule("case = one message JSON (every element path of every type, valid or hostile texts, with or without namespace keys) given to publish_mx; monitored: the stored XML, read by an independent strict reader, states exactly the content, equals what the API writes for the same JSON, and parse_mx reads it back; a separate stream publishes the Document without a header; non-trivial = distinct messages");
    let sp = Space::new(run.s);
    let n = sp.paths.len() as u64;
    let publish = |c: &mut Case, mt: &MT, g: &Msg, name: &str| {
            let mut j = msg_json(c.run.s, mt, g);
            let ns = c.rng.chance(0.3);
            if ns {
                for key in ["@xmlns", "@xmlns:xsi"] {
                    let dict = c.run.dict;
                    let v = match c.rng.below(5) {
                        0 => format!("{NS}{}", mt.full),
                        1 if !dict.strings.is_empty() => c.rng.pick(&dict.strings).replace(['\n', '\t', '\r'], " "),
                        2 => "http://www.w3.org/2001/XMLSchema-instance".into(),
                        _ => (*c.rng.pick(&["urn:a&b", "http://example.org/ns", "x", "", "urn:\"q\"", "URN:ISO", "urn:é中", "urn:swift:xsd:envelope"])).to_string(),
                    };
                    j[key] = json!(v);
                }
            }
            c.eval(j.to_string().as_bytes());
            let tgt = field_name(&mut c.rng, c.run.dict, &["out", "xml", "in", "a.b"]);
            let src = if c.rng.chance(0.5) { "in".to_string() } else { field_name(&mut c.rng, c.run.dict, &["in", "payload"]) };
            c.saw("field_names", format!("{src}>{tgt}").as_bytes());
            let mut data = json!({"in": {"AppHdr": "not this"}, "out": 5});
            data[&src] = j.clone();
            if tgt != src && c.rng.chance(0.5) {
                data[&tgt] = old_value(&mut c.rng, &j);
            }
            let mut m = plug::message(data, json!("p"));
            if let Err(e) = plug::call("publish_mx", &mut m, &plug::custom("publish_mx", json!({"source": src, "target": tgt}))) {
                return c.fail(&format!("C20|refused|{name}"), json!({"error": e.to_string(), "json": clip(&j.to_string(), 6000)}));
            }
            let Some(x) = m.data()[&tgt].as_str().map(String::from) else {
                return c.fail("C20|result is no text", json!({"result": clip(&m.data()[&tgt].to_string(), 500)}));
            };
            if let Err(d) = check_emitted(c.run.s, mt, g, &x) {
                return c.fail(&format!("C20|differs|{name}"), json!({"difference": d, "xml": clip(&x, 6000)}));
            }
            match MxMessage::from_json(&j.to_string()).and_then(|m| m.to_xml()) {
                Ok(y) if y == x => {}
                _ => c.fail(&format!("C20|API writes something else|{name}"), json!({"xml": clip(&x, 4000)})),
            }
            if tgt != src && m.data()[&src] != j {
                c.fail("C20|source changed", json!({"message": name}));
            }
            // and back
            if !x.contains("\\n") && tgt != "payload" {
                let r = plug::call("parse_mx", &mut m, &plug::custom("parse_mx", json!({"source": tgt, "target": "back"})));
                let mut want = j.clone();
                if !ns {
                    want = strip_ns(&want);
                }
                let got = &m.data()["back"];
                let d = match r {
                    Err(e) => Some(e.to_string()),
                    Ok(_) => json_diff(&want, &if ns { got.clone() } else { strip_ns(got) }, ""),
                };
                if let Some(d) = d {
                    c.fail(&format!("C20|not read back|{name}"), json!({"difference": d, "xml": clip(&x, 6000)}));
                }
            }
            c.sample(|| json!({"message": name, "xml": clip(&x, 400)}));
    };
    run.rounds(|_| {
        run.par("path", n, |c| {
            let mut cfg = crate::p_codec::vary_lax(c);
            if c.rng.chance(0.2) {
                cfg.text = Text::Hostile;
            }
            let (t, p) = &sp.paths[c.idx as usize];
            let mt = &MTS[*t];
            let hp = &sp.hdr_paths[c.rng.below(sp.hdr_paths.len())];
            let g = message(c.run.s, mt, p, hp, &mut c.rng, &cfg, Some(c.run.dict));
            let name = format!("{}:{}", mt.short, c.run.s.doc(mt.module).names(p));
            c.saw("element_paths", name.as_bytes());
            publish(c, mt, &g, &name);
        });
        run.par("huge", 2 * MTS.len() as u64, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let Some((g, name)) = huge(c, mt) else { return };
            publish(c, mt, &g, &name);
        });
        run.par("document", 50, |c| {
            let (mt, g) = small(c);
            let j = json!({"Document": msg_json(c.run.s, mt, &g)["Document"]});
            c.eval(j.to_string().as_bytes());
            let mut m = plug::message(json!({"in": j}), Value::Null);
            match plug::call("publish_mx", &mut m, &plug::custom("publish_mx", json!({"source": "in", "target": "out"}))) {
                Err(e) if e.to_string().contains("AppHdr") => c.fail("C20|Document without a header is refused", json!({"error": e.to_string()})),
                Err(e) => c.fail("C20|Document without a header: unexpected error", json!({"error": e.to_string()})),
                Ok(_) => {
                    let x = m.data()["out"].as_str().unwrap_or_default().to_string();
                    let ok = crate::xmlp::parse(&x).and_then(|e| {
                        let d = if e.name == "Document" { &e } else { e.kids.iter().find(|k| k.name == "Document").ok_or("no Document")? };
                        let k = d.kids.first().filter(|k| k.name == mt.tag).ok_or("no message element")?;
                        crate::xmlp::matches(c.run.s.doc(mt.module), &g.doc, k, "")
                    });
                    if let Err(d) = ok {
                        c.fail("C20|Document without a header differs", json!({"difference": d, "xml": clip(&x, 3000)}));
                    }
                }
            }
        });
    });
}

// C21 -----------------------------------------------------------------
/// the verdict of validate_mx after checking its shape and bookkeeping
fn verdict(c: &mut Case, x: &str) -> Option<bool> {
    let (src, tgt) = if c.rng.chance(0.5) {
        ("in".to_string(), "out".to_string())
    } else {
        (field_name(&mut c.rng, c.run.dict, &["in", "payload"]), field_name(&mut c.rng, c.run.dict, &["out", "validation"]))
    };
    let (src, tgt) = if src == tgt || [&src, &tgt].iter().any(|n| *n == "keep") { ("in".to_string(), "out".to_string()) } else { (src, tgt) };
    c.saw("field_names", format!("{src}>{tgt}").as_bytes());
    let mut data = json!({"in": "not this", "keep": 1});
    let from_payload = src == "payload";
    if !from_payload {
        data[&src] = if c.rng.chance(0.2) { json!({"mx_message": x, "json_data": {}}) } else { json!(x) };
    }
    let source0 = data[&src].clone();
    if c.rng.chance(0.5) {
        data[&tgt] = old_value(&mut c.rng, &json!({"valid": c.idx % 2 == 0, "errors": ["old"], "warnings": ["old"], "timestamp": "2020-01-01T00:00:00Z"}));
    }
    let mut m = busy_message(&mut c.rng, data, if from_payload { json!(x) } else { json!("p") });
    let meta0 = m.metadata().clone();
    let t0 = chrono::Utc::now();
    let r = plug::call("validate_mx", &mut m, &plug::custom("validate_mx", json!({"source": src, "target": tgt})));
    let t1 = chrono::Utc::now();
    if let Err(e) = r {
        c.fail("C21|call failed", json!({"error": e.to_string(), "xml": clip(x, 3000)}));
        return None;
    }
    let v = m.data()[&tgt].clone();
    let when = |t: &Value| t.as_str().and_then(|t| chrono::DateTime::parse_from_rfc3339(t).ok()).is_some_and(|t| t >= t0 - chrono::Duration::milliseconds(1) && t <= t1 + chrono::Duration::milliseconds(1));
    let keys: Vec<&String> = v.as_object().map(|o| o.keys().collect()).unwrap_or_default();
    let texts = |a: &Value| a.as_array().is_some_and(|a| a.iter().all(|e| e.as_str().is_some_and(|s| !s.is_empty())));
    let ok = v["valid"].as_bool();
    let mut meta = m.metadata().clone();
    let note = meta.as_object_mut().and_then(|o| o.remove("validation")).unwrap_or(Value::Null);
    let good = keys.len() == 4
        && ok.is_some()
        && texts(&v["errors"])
        && texts(&v["warnings"])
        && ok == v["errors"].as_array().map(|a| a.is_empty())
        && when(&v["timestamp"])
        && note["validated"] == json!(true)
        && when(&note["timestamp"])
        && meta == meta0
        && m.data()[&src] == source0
        && m.data()["keep"] == json!(1);
    if !good {
        c.fail("C21|shape of the result", json!({"result": v, "metadata": m.metadata()}));
        return None;
    }
    c.count(if ok == Some(true) { "verdict_valid" } else { "verdict_invalid" }, 1);
    if ok == Some(false) {
        c.saw("distinct_errors", v["errors"][0].as_str().unwrap_or("").as_bytes());
    }
    ok
}
pub fn c21(run: &Run) {
    run.rule("case = one XML text given to validate_mx: a conforming message (envelope or Document, random layout), a message with one mandatory element removed or one coded/numeric value broken, or a randomly mutated message; monitored: the verdict, its agreement with the reading API, the shape of the result, time stamps within the call, metadata, everything else untouched; non-trivial = distinct texts");
    let sp = Space::new(run.s);
    let fs = crate::p_reject::Faults::new(run.s);
    run.rounds(|_| {
        run.par("conforming", if run.thorough() { 12000 } else { 5000 }, |c| {
            let cfg = vary(c);
            c.idx = c.rng.below(sp.paths.len()) as u64;
            let (mt, g, name) = fresh(c, &sp, &cfg);
            let st = if c.rng.chance(0.5) { EnvStyle::plain() } else { EnvStyle::random(&mut c.rng, mt.full) };
            let m = c.run.s.doc(mt.module);
            let x = if c.rng.chance(0.6) { envelope(hdr_module(c.run.s), m, mt.tag, &g, &st) } else { document_only(m, mt.tag, &g.doc, &st) };
            c.eval(x.as_bytes());
            if verdict(c, &x) == Some(false) {
                c.fail(&format!("C21|conforming message reported invalid|{name}"), json!({"xml": clip(&x, 6000)}));
            }
            c.sample(|| json!({"message": name, "xml": clip(&x, 400)}));
        });
        run.par("incomplete", if run.thorough() { 8000 } else { 3000 }, |c| {
            let (mt, mut g) = small(c);
            let s = c.run.s;
            let hdr = c.rng.chance(0.2);
            let m = if hdr { hdr_module(s) } else { s.doc(mt.module) };
            let mut what = None;
            // a mandatory element that is present goes away
            let pick = c.rng.below(12);
            let mut k = 0;
            fn cut(m: &crate::schema::Module, n: &mut Node, k: &mut usize, pick: usize, what: &mut Option<String>) {
                let crate::schema::Ty::Ref(t) = n.ty else { return };
                let Body::Struct(slots) = &mut n.body else { return };
                for sl in slots {
                    let f = &m.fields(t)[sl.field];
                    if crate::p_reject::is_mandatory(f) && !sl.occ.is_empty() && what.is_none() {
                        *k += 1;
                        if *k > pick {
                            sl.occ.clear();
                            *what = Some(f.xml.clone());
                            return;
                        }
                    }
                    for o in &mut sl.occ {
                        cut(m, o, k, pick, what);
                    }
                }
            }
            cut(m, if hdr { &mut g.hdr } else { &mut g.doc }, &mut k, pick, &mut what);
            let Some(what) = what else { return };
            let x = if hdr || c.rng.chance(0.5) { env(c, mt, &g) } else { doc(c, mt, &g) };
            c.eval(x.as_bytes());
            if verdict(c, &x) == Some(true) {
                c.fail(&format!("C21|incomplete message reported valid|{}:{what}", mt.short), json!({"xml": clip(&x, 5000)}));
            }
        });
        run.par("huge", 80, |c| {
            let missing = c.rng.chance(0.5);
            let Some((mt, g0, g, hdr, name)) = crate::p_reject::huge_fault(c, &fs, missing) else { return };
            for (good, g) in [(true, g0), (false, g)] {
                let x = if hdr || c.rng.chance(0.5) { env(c, mt, &g) } else { doc(c, mt, &g) };
                c.eval(x.as_bytes());
                if verdict(c, &x) == Some(!good) {
                    c.fail(&format!("C21|wrong verdict on a huge message|{good}|{name}"), json!({"bytes": x.len(), "readable": good, "xml": clip(&x, 2000)}));
                }
            }
        });
        run.par("mutated", if run.thorough() { 20000 } else { 6000 }, |c| {
            let (mt, g) = small(c);
            let x0 = if c.rng.chance(0.6) { env(c, mt, &g) } else { doc(c, mt, &g) };
            let x = crate::p_robust::mutate(&mut c.rng, c.run.dict, &x0, 3);
            c.eval(x.as_bytes());
            let Some(v) = verdict(c, &x) else { return };
            let api = MxMessage::from_xml(&x).is_ok();
            let typed = api || MTS.iter().any(|mt| mx_message::xml::xml_to_json_via_document(&x, mt.short).is_ok());
            if v && !typed {
                c.fail("C21|reported valid although nothing can read it", json!({"xml": clip(&x, 5000)}));
            }
            if !v && api {
                c.fail("C21|reported invalid although it can be read", json!({"xml": clip(&x, 5000)}));
            }
            c.count("mutated_and_still_readable", api as u64);
        });
        run.par("constraints", 40, |c| {
            let (mt, mut g) = small(c);
            let h = hdr_module(c.run.s);
            set_text(h, &mut g.hdr, "BizMsgIdr", &"9".repeat(200));
            let x = env(c, mt, &g);
            c.eval(x.as_bytes());
            if verdict(c, &x) == Some(true) {
                c.fail("C21|length and pattern constraints are not checked", json!({"xml": clip(&x, 5000)}));
            }
        });
    });
}

// C22 -----------------------------------------------------------------
pub fn c22(run: &Run) {
    run.rule("case = one message with random unrelated data, metadata and temporary data taken through 2..14 random plugin calls (all four functions, random source and target fields that overlap, failing calls included); after every call the whole message is compared with a model: exactly the target field (and the function's own metadata entry) changes, the change record names it with its old and new value, status 200, failing calls change nothing, the engine's cached context is fresh; non-trivial = distinct histories");
    run.rounds(|_| {
        run.par("history", if run.thorough() { 6000 } else { 2500 }, |c| {
            let (mt, g) = small(c);
            let (mt2, g2) = small(c);
            let s = c.run.s;
            let mut names: Vec<String> = ["a", "b", "c", "x.y", "validation", "in", "payload", "é", "", "deep"].iter().map(|n| n.to_string()).collect();
            if c.rng.chance(0.5) {
                for k in [0, 1, 2, 3, 5, 9] {
                    names[k] = field_name(&mut c.rng, c.run.dict, &["a", "b", "data.a"]);
                }
            }
            let mut data = Map::new();
            for n in names.iter().take(6) {
                let v = match c.rng.below(6) {
                    0 => json!(env(c, mt, &g)),
                    1 => json!(doc(c, mt2, &g2)),
                    2 => msg_json(s, mt, &g),
                    3 => json!({"mx_message": env(c, mt2, &g2)}),
                    _ => random_value(&mut c.rng, 2),
                };
                if c.rng.chance(0.8) {
                    data.insert(n.to_string(), v);
                }
            }
            let payload = match c.rng.below(3) {
                0 => json!(env(c, mt2, &g2)),
                1 => json!({"variables": {"v": "V1"}, "schema": msg_json(s, mt, &g)}),
                _ => json!({"schema": {"k": "w", "n": [1, {"p": true, "q": "z"}]}}),
            };
            let mut m = busy_message(&mut c.rng, Value::Object(data), payload);
            let mut model = m.context.clone();
            let mut hist: Vec<String> = vec![];
            let steps = 2 + c.rng.below(13);
            for step in 0..steps {
                let f = *c.rng.pick(&FUNCS);
                let src = c.rng.pick(&names).as_str();
                let tgt = c.rng.pick(&names).as_str();
                let mut input = json!({"source": src, "target": tgt});
                if c.rng.chance(0.05) {
                    input = json!({"target": 1});
                }
                hist.push(format!("{f} {input}"));
                let id = m.id.clone();
                let pl = (*m.payload).clone();
                let want: Option<Value> = input["source"].as_str().and_then(|_| expect_result(f, src, &model["data"], &pl));
                if c.rng.chance(0.3) {
                    let _ = m.get_context_arc();
                }
                let r = no_panic(|| plug::call(f, &mut m, &plug::custom(f, input.clone())));
                c.eval(format!("{}|{hist:?}|{}", c.idx, step).as_bytes());
                let det = |what: String| json!({"what": what, "history": hist, "before": clip(&model.to_string(), 3000)});
                let r = match r {
                    Ok(r) => r,
                    Err(p) => return c.fail(&format!("C22|panic|{f}"), det(p)),
                };
                match r {
                    Err(e) => {
                        c.count("failing_calls", 1);
                        if want.is_some() {
                            return c.fail(&format!("C22|unexpected failure|{f}"), det(e.to_string()));
                        }
                    }
                    Ok((status, ch)) => {
                        c.count("successful_calls", 1);
                        let Some(want) = want else {
                            return c.fail(&format!("C22|unexpected success|{f}"), det(format!("{status}")));
                        };
                        let got = m.data()[tgt].clone();
                        let old = model["data"].get(tgt).cloned().unwrap_or(Value::Null);
                        let same = if f == "validate_mx" {
                            got["valid"] == want["valid"]
                        } else {
                            got == want
                        };
                        if !same {
                            return c.fail(&format!("C22|result|{f}"), det(json_diff(&want, &got, "").unwrap_or_default()));
                        }
                        if status != 200 || ch.len() != 1 || &*ch[0].path != format!("data.{tgt}").as_str() || *ch[0].new_value != got || *ch[0].old_value != old {
                            return c.fail(&format!("C22|change record|{f}"), det(format!("status {status}, {}", clip(&format!("{ch:?}"), 1500))));
                        }
                        model["data"][tgt] = got.clone();
                        if f == "parse_mx" {
                            let e = got["Document"].as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
                            let short = MTS.iter().find(|m| m.tag == e).map_or("?", |m| m.short);
                            model["metadata"][tgt] = json!({"message_type": short, "format": "json"});
                        }
                        if f == "validate_mx" {
                            let t = m.metadata()["validation"]["timestamp"].clone();
                            model["metadata"]["validation"] = json!({"validated": true, "timestamp": t});
                        }
                    }
                }
                if let Some(d) = json_diff(&model, &m.context, "") {
                    return c.fail(&format!("C22|other content changed|{f}"), json!({"difference": d, "history": hist}));
                }
                if m.id != id || *m.payload != pl || !m.errors.is_empty() || !m.audit_trail.is_empty() {
                    return c.fail(&format!("C22|message envelope changed|{f}"), json!({"history": hist}));
                }
                if *m.get_context_arc() != m.context {
                    return c.fail(&format!("C22|stale cached context|{f}"), json!({"history": hist}));
                }
            }
            c.saw("histories", format!("{hist:?}").as_bytes());
            c.sample(|| json!({"history": hist}));
        });
    });
}
/// what a call has to store, from the reading/writing API; None when it has to fail
fn expect_result(f: &str, src: &str, data: &Value, payload: &Value) -> Option<Value> {
    let text = || -> Option<String> {
        if src == "payload" {
            return Some(payload.as_str().map(String::from).unwrap_or_else(|| payload.to_string()));
        }
        let v = data.get(src)?;
        v.get("mx_message").and_then(|x| x.as_str()).or(v.as_str()).map(String::from)
    };
    let doc_type = |x: &str| MTS.iter().find(|m| x.contains(&format!("<{}>", m.tag))).map(|m| m.short);
    match f {
        "generate_mx" => Some(payload.get("schema")?.clone()),
        "publish_mx" => MxMessage::from_json(&data.get(src)?.to_string()).ok()?.to_xml().ok().map(Value::String),
        "parse_mx" => {
            let x = text()?;
            if let Ok(m) = MxMessage::from_xml(&x) {
                return to_value(&m).ok();
            }
            if x.contains("<AppHdr>") { None } else { mx_message::xml::xml_to_json_via_document(&x, doc_type(&x)?).ok() }
        }
        _ => {
            let x = text()?;
            let ok = MxMessage::from_xml(&x).is_ok() || (!x.contains("<AppHdr>") && doc_type(&x).is_some_and(|t| mx_message::xml::xml_to_json_via_document(&x, t).is_ok()));
            Some(json!({"valid": ok}))
        }
    }
}

// C23 -----------------------------------------------------------------
pub fn workflow() -> Workflow {
    let task = |id: &str, f: &str, input: Value| json!({"id": id, "name": id, "function": {"name": f, "input": input}});
    Workflow::from_json(
        &json!({"id": "pipe", "name": "pipe", "priority": 0, "tasks": [
            task("generate", "generate_mx", json!({"target": "sample_json"})),
            task("publish", "publish_mx", json!({"source": "sample_json", "target": "sample_xml"})),
            task("validate", "validate_mx", json!({"source": "sample_xml", "target": "result"})),
            task("parse", "parse_mx", json!({"source": "sample_xml", "target": "mx_json"})),
        ]})
        .to_string(),
    )
    .unwrap()
}
pub fn engine() -> Engine {
    Engine::new(vec![workflow()], Some(mx_message::plugin::register_mx_functions().into_iter().map(|(n, h)| (n.to_string(), h)).collect()))
}
/// equality up to the 15 significant digits that numbers are claimed for
pub fn json_near(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            if let Some(k) = x.keys().find(|k| !y.contains_key(*k)).or(y.keys().find(|k| !x.contains_key(*k))) {
                return Some(format!("{at}/{k}: only on one side"));
            }
            x.iter().find_map(|(k, v)| json_near(v, &y[k], &format!("{at}/{k}")))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (v, w))| json_near(v, w, &format!("{at}[{i}]"))),
        _ => match (a.as_f64(), b.as_f64()) {
            (Some(x), Some(y)) if (x - y).abs() <= 1e-14 * x.abs().max(y.abs()) => None,
            _ => json_diff(a, b, at),
        },
    }
}
pub fn c23(run: &Run) {
    run.rule("case = one of the repository's scenarios run through the whole workflow (generate, publish, validate, parse) by the dataflow engine, several times each; monitored: every step succeeds, the XML read by an independent strict reader has one header and one document of the scenario's type, the verdict is valid, and the parsed JSON equals the generated JSON (numbers to 15 digits); also the same workflow over generated messages of every type; non-trivial = distinct generated messages");
    let sc = plug::scenarios();
    run.counter("scenarios", sc.len() as u64);
    if sc.is_empty() {
        return run.inconclusive("no scenarios found");
    }
    let eng = engine();
    let through = |c: &mut Case, name: &str, short: Option<&str>, payload: &Value| {
        let mut m = Message::from_value(payload);
        let res = plug::block_on(eng.process_message(&mut m));
        let j = m.data()["sample_json"].clone();
        c.eval(j.to_string().as_bytes());
        let whole = j.get("AppHdr").is_some() && j.get("Document").is_some();
        if !whole {
            // only a complete message can be published
            if (res.is_ok() && m.errors.is_empty()) || m.data().get("sample_xml").is_some() {
                c.fail(&format!("C23|incomplete message published|{name}"), json!({"json": clip(&j.to_string(), 2000)}));
            }
            c.count("incomplete_scenarios", 1);
            return;
        }
        if let Err(e) = res {
            return c.fail(&format!("C23|engine|{name}"), json!({"error": e.to_string()}));
        }
        if !m.errors.is_empty() {
            return c.fail(&format!("C23|errors|{name}"), json!({"errors": clip(&format!("{:?}", m.errors), 2000), "json": clip(&j.to_string(), 4000)}));
        }
        let steps: Vec<(String, usize, String)> = m.audit_trail.iter().map(|a| (a.task_id.to_string(), a.status, a.changes.iter().map(|c| c.path.to_string()).collect())).collect();
        let want: Vec<(String, usize, String)> = [("generate", "sample_json"), ("publish", "sample_xml"), ("validate", "result"), ("parse", "mx_json")].iter().map(|(t, p)| (t.to_string(), 200, format!("data.{p}"))).collect();
        if steps != want {
            c.fail(&format!("C23|audit trail|{name}"), json!({"audit": format!("{steps:?}")}));
        }
        let x = m.data()["sample_xml"].as_str().unwrap_or_default().to_string();
        match crate::xmlp::parse(&x) {
            Err(e) => c.fail(&format!("C23|not well-formed|{name}"), json!({"error": e, "xml": clip(&x, 4000)})),
            Ok(e) => {
                let names: Vec<&str> = e.kids.iter().map(|k| k.name.as_str()).collect();
                let tag = e.kids.get(1).and_then(|d| d.kids.first()).map(|k| k.name.clone());
                let key = j["Document"].as_object().and_then(|o| o.keys().next().cloned());
                if names != ["AppHdr", "Document"] || tag != key {
                    c.fail(&format!("C23|envelope|{name}"), json!({"found": names, "document": tag}));
                }
                let t = tag.as_deref().and_then(|t| MTS.iter().find(|m| m.tag == t));
                if t.is_none() || short.is_some_and(|s| t.unwrap().short != s) {
                    c.fail(&format!("C23|type|{name}"), json!({"document": tag}));
                }
                if let Some(t) = t {
                    c.saw("message_types", t.short.as_bytes());
                    if m.metadata()["mx_json"] != json!({"message_type": t.short, "format": "json"}) {
                        c.fail(&format!("C23|metadata|{name}"), json!({"metadata": m.metadata()}));
                    }
                }
            }
        }
        if m.data()["result"]["valid"] != json!(true) || m.data()["result"]["errors"] != json!([]) {
            c.fail(&format!("C23|reported invalid|{name}"), json!({"result": m.data()["result"], "xml": clip(&x, 4000)}));
        }
        if let Some(d) = json_near(&j, &m.data()["mx_json"], "") {
            c.fail(&format!("C23|differs|{name}"), json!({"difference": d, "xml": clip(&x, 4000)}));
        }
        c.count("bytes_of_xml", x.len() as u64);
        c.sample(|| json!({"scenario": name, "xml": clip(&x, 500)}));
    };
    run.rounds(|_| {
        run.par("scenario", (sc.len() * 4) as u64, |c| {
            let (d, f, v) = &sc[c.idx as usize % sc.len()];
            c.saw("scenarios", format!("{d}/{f}").as_bytes());
            through(c, &format!("{d}/{f}"), None, v);
        });
        let sp = Space::new(run.s);
        run.par("message", if run.thorough() { 6000 } else { 1500 }, |c| {
            let mut cfg = crate::p_codec::vary_lax(c);
            if c.rng.chance(0.2) {
                cfg.text = Text::Hostile;
            }
            c.idx = c.rng.below(sp.paths.len()) as u64;
            let (mt, mut g, name) = fresh(c, &sp, &cfg);
            if c.rng.chance(0.25) {
                // elements that hold nothing are there all the same
                let mut r = c.rng.clone();
                let p = *r.pick(&[0.05, 0.3, 1.0]);
                g.doc.walk_mut(c.run.s.doc(mt.module), &mut |_, n| {
                    if matches!(n.body, Body::Str(_)) && r.chance(p) {
                        n.body = Body::Str(String::new());
                    }
                });
                c.count("messages_with_empty_texts", 1);
            }
            no_literal(c, mt, &mut g);
            let j = msg_json(c.run.s, mt, &g);
            through(c, &name, Some(mt.short), &json!({"variables": {}, "schema": j}));
        });
    });
}

// C24 -----------------------------------------------------------------
const OPS: &[&str] = &["var", "==", "!=", "===", "!==", "!", "!!", "or", "and", "?:", "if", ">", ">=", "<", "<=", "max", "min", "+", "-", "*", "/", "%", "map", "filter", "reduce", "all", "none", "some", "merge", "in", "cat", "substr", "log", "method", "preserve", "missing", "missing_some", "fake"];
fn key_name(r: &mut Rng) -> String {
    for _ in 0..20 {
        let k = match r.below(4) {
            0 => hostile(r),
            1 => format!("k{}", r.below(1000)),
            _ => (*r.pick(&["Document", "AppHdr", "Amt", "@Ccy", "$value", "GrpHdr", "mx_message", "message_type", "schema", "variables", "É"])).to_string(),
        };
        if !OPS.contains(&k.as_str()) && !k.is_empty() {
            return k;
        }
    }
    "k".into()
}
/// a template and what it has to produce
fn template(r: &mut Rng, depth: usize, vars: &[(String, Value)]) -> (Value, Value) {
    let lit = |v: Value| (v.clone(), v);
    match r.below(if depth == 0 { 13 } else { 16 }) {
        8 => (json!({"var": format!("no_such_{}", r.below(9))}), Value::Null),
        9 => {
            let v: Vec<String> = (0..1 + r.below(4)).map(|_| hostile(r)).collect();
            (json!({"cat": v}), json!(v.concat()))
        }
        10 => {
            let (b, x, y) = (r.chance(0.5), hostile(r), r.next() % 1000);
            (json!({"if": [b, x, y]}), if b { json!(x) } else { json!(y) })
        }
        11 => {
            let (a, b) = (r.below(1000), r.below(1000));
            (json!({"+": [a, b]}), json!(a + b))
        }
        12 => lit(json!(*r.pick(&[0i64, -1, 9007199254740993, i64::MAX, i64::MIN]))),
        0 => lit(json!(r.chance(0.5))),
        1 => lit(json!(r.next() % 1_000_000)),
        2 => lit(json!(-((r.next() % 1000) as f64) / 8.0)),
        3 | 4 => lit(json!(hostile(r))),
        5 => lit(json!("")),
        6 | 7 if !vars.is_empty() => {
            let (n, v) = r.pick(vars);
            (json!({"var": n}), v.clone())
        }
        6 | 7 => lit(json!("x")),
        13 => {
            let k = if r.chance(0.05) { r.range(20, 150) } else { r.below(4) };
            let v: Vec<_> = (0..k).map(|_| template(r, if k > 4 { 0 } else { depth - 1 }, vars)).collect();
            (Value::Array(v.iter().map(|x| x.0.clone()).collect()), Value::Array(v.into_iter().map(|x| x.1).collect()))
        }
        _ => {
            let mut a = Map::new();
            let mut b = Map::new();
            let n = if r.chance(0.05) { r.range(20, 150) } else { r.below(5) };
            for i in 0..n {
                let k = if n > 5 { format!("{}{i}", key_name(r)) } else { key_name(r) };
                let (x, y) = template(r, if n > 5 { 0 } else { depth - 1 }, vars);
                a.insert(k.clone(), x);
                b.insert(k, y);
            }
            (Value::Object(a), Value::Object(b))
        }
    }
}
pub fn c24(run: &Run) {
    run.rule("case = one generation scenario whose outcome is determined: random nested template of literals and variable references (literal variables substituted exactly; generated variables equal at every reference), or a whole message as template; monitored: the target holds exactly the expanded template, the scenario in the payload and all other data are untouched, metadata untouched; non-trivial = distinct scenarios");
    run.rounds(|_| {
        run.par("template", if run.thorough() { 20000 } else { 6000 }, |c| {
            let r = &mut c.rng;
            let vars: Vec<(String, Value)> = (0..r.below(5)).map(|i| (format!("v{i}_{}", r.below(9)), match r.below(4) { 0 => json!(r.next() % 100), 1 => json!(r.chance(0.5)), 2 => json!({"a": "b", "c": [1, null, {"d": null}], "e": ""}), _ => json!(hostile(r)) })).collect();
            let fake = r.chance(0.5);
            let (mut t, mut want) = template(r, 3, &vars);
            if !t.is_object() || ["var", "cat", "if", "+"].iter().any(|k| t.get(k).is_some()) {
                t = json!({"k1": t, "k2": 1});
                want = json!({"k1": want, "k2": 1});
            }
            let mut vs: Map<String, Value> = vars.into_iter().collect();
            let mut schema = t;
            if fake {
                vs.insert("uid".into(), json!({"fake": ["uuid"]}));
                schema = json!({"a": {"var": "uid"}, "rest": schema, "b": [{"var": "uid"}, {"x": {"var": "uid"}, "y": 0}]});
            }
            let scen = if vs.is_empty() && c.rng.chance(0.5) { json!({"schema": schema}) } else { json!({"variables": vs, "schema": schema}) };
            let tgt = field_name(&mut c.rng, c.run.dict, &["out", "sample_json", "a.b", "keep2", "payload", ""]);
            let mut data = json!({"keep": {"x": [1]}, "keep2": "old"});
            if c.rng.chance(0.6) {
                data[&tgt] = old_value(&mut c.rng, &want);
            }
            let mut m = busy_message(&mut c.rng, data, scen.clone());
            let before = snapshot(&m);
            c.eval(scen.to_string().as_bytes());
            let res = plug::call("generate_mx", &mut m, &plug::custom("generate_mx", json!({"target": tgt})));
            let ch = match res {
                Ok((200, ch)) if ch.len() == 1 => ch,
                o => return c.fail("C24|refused", json!({"outcome": clip(&format!("{o:?}"), 500), "scenario": clip(&scen.to_string(), 3000)})),
            };
            let got = m.data()[&tgt].clone();
            let part = if fake { &got["rest"] } else { &got };
            if let Some(d) = json_diff(&want, part, "") {
                return c.fail("C24|not the expanded template", json!({"difference": d, "scenario": clip(&scen.to_string(), 3000)}));
            }
            if fake && (got["a"].as_str().is_none_or(|s| s.len() != 36) || got["b"][0] != got["a"] || got["b"][1] != json!({"x": got["a"], "y": 0}) || got.as_object().unwrap().len() != 3) {
                return c.fail("C24|generated variable differs between references", json!({"result": clip(&got.to_string(), 2000)}));
            }
            if fake {
                c.saw("generated_ids", got["a"].as_str().unwrap_or("").as_bytes());
            }
            if *ch[0].new_value != got || &*ch[0].path != format!("data.{tgt}").as_str() {
                c.fail("C24|change record", json!({"path": ch[0].path.to_string()}));
            }
            let mut after = snapshot(&m);
            match before["context"]["data"].get(&tgt) {
                Some(v) => after["context"]["data"][&tgt] = v.clone(),
                None => { after["context"]["data"].as_object_mut().unwrap().remove(&tgt); }
            }
            if let Some(d) = json_diff(&before, &after, "") {
                c.fail("C24|other content changed", json!({"difference": d}));
            }
            c.sample(|| json!({"scenario": clip(&scen.to_string(), 500), "result": clip(&got.to_string(), 500)}));
        });
        run.par("message", (MTS.len() * 20) as u64, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: 0.1, budget: 150, text: if c.idx % 2 == 0 { Text::Valid } else { Text::Hostile }, ..Cfg::default() }, Some(c.run.dict));
            let j = msg_json(c.run.s, mt, &g);
            c.eval(j.to_string().as_bytes());
            let mut m = plug::message(json!({}), json!({"variables": {}, "schema": j}));
            let r = plug::call("generate_mx", &mut m, &plug::custom("generate_mx", json!({"target": "out"})));
            if let Err(e) = r {
                return c.fail("C24|message refused", json!({"error": e.to_string()}));
            }
            if m.data()["out"] != j {
                c.fail("C24|message differs", json!({"difference": json_diff(&j, &m.data()["out"], "")}));
            }
        });
        // random ids differ between calls: a generator that repeats itself is useless as test data
        run.par("fresh", 50, |c| {
            let scen = json!({"variables": {"u": {"fake": ["uuid"]}}, "schema": {"a": {"var": "u"}, "b": 1}});
            let mut seen = vec![];
            for _ in 0..4 {
                let mut m = plug::message(json!({}), scen.clone());
                let _ = plug::call("generate_mx", &mut m, &plug::custom("generate_mx", json!({"target": "out"})));
                seen.push(m.data()["out"]["a"].clone());
            }
            c.eval(format!("{}", c.idx).as_bytes());
            let n = seen.len();
            seen.sort_by_key(|v| v.to_string());
            seen.dedup();
            if seen.len() != n || seen[0].is_null() {
                c.fail("C24|generated data repeats between calls", json!({"values": seen}));
            }
        });
    });
    let _: Option<Arc<()>> = None;
}

// C37 -----------------------------------------------------------------
/// places at which a JSON message breaks a constraint of its type
fn broken(s: &'static Schema, m: &Module, ty: Ty, f: Option<&Field>, v: &Value, path: &str, out: &mut Vec<String>) {
    match (ty, v) {
        (_, Value::Array(a)) => a.iter().for_each(|v| broken(s, m, ty, f, v, path, out)),
        (Ty::Ref(t), Value::Object(o)) => {
            if let Kind::Struct(fs) = &m.types[t].kind {
                for f in fs {
                    if let Some(v) = o.get(&f.xml) {
                        broken(s, m, f.ty, Some(f), v, &if path.is_empty() { f.xml.clone() } else { format!("{path}.{}", f.xml) }, out);
                    }
                }
            }
        }
        (Ty::Prim(Prim::Str), Value::String(t)) => {
            if f.is_some_and(|f| !conforms(s, f, t)) {
                out.push(path.to_string());
            }
        }
        _ => {}
    }
}
/// the scenarios that the directories' index files offer: (directory, file, type offered, content)
fn offered() -> Vec<(String, String, String, Value)> {
    let all = plug::scenarios();
    let mut out = vec![];
    let dirs: std::collections::BTreeSet<&String> = all.iter().map(|x| &x.0).collect();
    for d in dirs {
        let ix: Value = std::fs::read_to_string(format!("/repo/test_scenarios/{d}/index.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
        // camt025 -> camt.025
        let short = format!("{}.{}", &d[..4], &d[4..]);
        for e in ix["scenarios"].as_array().into_iter().flatten() {
            let file = e["file"].as_str().unwrap_or_default();
            if let Some(x) = all.iter().find(|x| x.0 == *d && x.1 == file) {
                out.push((d.clone(), file.to_string(), short.clone(), x.2.clone()));
            }
        }
    }
    out
}
/// what the template draws the text at a path with, if it is nothing but one draw
fn drawn(scenario: &Value, part: &Value, path: &str) -> Option<String> {
    let mut at = part;
    for k in path.split('.') {
        while let Value::Array(a) = at {
            at = a.first()?;
        }
        at = at.get(k)?;
    }
    while let Value::Array(a) = at {
        at = a.first()?;
    }
    if let Some(kind) = at["fake"][0].as_str() {
        return Some(kind.into());
    }
    let var = at.get("var")?.as_str()?;
    scenario["variables"][var]["fake"][0].as_str().map(String::from)
}
pub fn c37(run: &Run) {
    run.rule("case = one message drawn by generate_mx from one of the scenarios that the repository's index files offer; monitored: it can be read, its header and document are of the offered type, and no text in it breaks a length or pattern constraint - by the reference schema and by the library's own validation, which must agree on the places; non-trivial = distinct generated messages");
    let sc = offered();
    run.counter("scenarios_offered", sc.len() as u64);
    if sc.is_empty() {
        return run.inconclusive("no scenarios found");
    }
    let draws = if run.thorough() { 100 } else { 25 };
    run.rounds(|_| {
        run.par("scenario", (sc.len() * draws) as u64, |c| {
            let (d, f, short, scenario) = &sc[c.idx as usize % sc.len()];
            let name = format!("{d}/{f}");
            c.saw("scenarios", name.as_bytes());
            let mut m = plug::message(json!({}), scenario.clone());
            if let Err(e) = plug::call("generate_mx", &mut m, &plug::custom("generate_mx", json!({"target": "out"}))) {
                return c.fail(&format!("C37|not generated|{name}"), json!({"error": e.to_string()}));
            }
            let j = m.data()["out"].clone();
            c.eval(j.to_string().as_bytes());
            let msg = match MxMessage::from_json(&j.to_string()) {
                Ok(m) => m,
                Err(e) => return c.fail(&format!("C37|cannot be read|{name}"), json!({"error": e.to_string(), "json": clip(&j.to_string(), 4000)})),
            };
            let Some(mt) = MTS.iter().find(|t| t.short == short) else { return c.fail(&format!("C37|unknown type|{name}"), json!({"type": short})) };
            let tag = j["Document"].as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
            let id = j["AppHdr"]["MsgDefIdr"].as_str().unwrap_or_default();
            if tag != mt.tag || !id.starts_with(mt.short) {
                return c.fail(&format!("C37|type|{name}"), json!({"offered": short, "document": tag, "header": id}));
            }
            c.saw("message_types", mt.short.as_bytes());
            let s = c.run.s;
            for (part, m, v) in [("AppHdr", hdr_module(s), &j["AppHdr"]), (mt.short, s.doc(mt.module), &j["Document"][mt.tag])] {
                let mut want = vec![];
                broken(s, m, Ty::Ref(m.root), None, v, "", &mut want);
                let mut col = mx_message::parse_result::ErrorCollector::new();
                let cfg = mx_message::parse_result::ParserConfig::default();
                no_panic(|| crate::p_valid::validate_part(&msg, part == "AppHdr", "", &cfg, &mut col));
                let mut got: Vec<String> = col.errors().iter().map(|e| e.path.clone().unwrap_or_default()).collect();
                want.sort();
                want.dedup();
                got.sort();
                got.dedup();
                c.count("parts_validated", 1);
                if got != want {
                    c.fail(&format!("C37|validation disagrees|{name}"), json!({"part": part, "reported": got, "broken": want}));
                }
                for p in &want {
                    let template = if part == "AppHdr" { &scenario["schema"]["AppHdr"] } else { &scenario["schema"]["Document"][mt.tag] };
                    let sig = match drawn(scenario, template, p) {
                        Some(kind) if !matches!(kind.as_str(), "enum" | "i64" | "f64" | "lei" | "bic" | "iban") => format!("C37|drawn {kind}|{}", p.rsplit('.').next().unwrap()),
                        _ => format!("C37|constraint|{name}|{part}|{p}"),
                    };
                    c.fail(&sig, json!({"part": part, "path": p, "json": clip(&v.to_string(), 4000)}));
                }
            }
            c.sample(|| json!({"scenario": name, "json": clip(&j.to_string(), 400)}));
        });
    });
}
