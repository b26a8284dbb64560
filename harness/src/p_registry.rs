//! C15, C16: message type registry and type identification
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::plug;
use crate::rng::Rng;
use mx_message::message_registry as reg;
use mx_message::mx_envelope::{self, MxMessage};
use mx_message::plugin::common;
use serde_json::{Value, json};

fn entry(t: &str) -> Option<&'static MT> {
    MTS.iter().find(|m| m.short == t || m.full == t)
}
/// a string that may or may not be an identifier the registry knows
fn ident(c: &mut Case) -> String {
    let d = c.run.dict;
    let r = &mut c.rng;
    let m = &MTS[r.below(MTS.len())];
    let n = &MTS[r.below(MTS.len())];
    let base = (*r.pick(&[m.short, m.full, m.tag, m.rust])).to_string();
    match r.below(16) {
        0..=3 => base,
        4 => base.to_uppercase(),
        5 => base.to_lowercase(),
        6 => format!("{base}{}", r.pick(&[" ", ".", "0", "\n", ".001", ".001.01", "x", "\u{0}", "V09"])),
        7 => format!("{}{base}", r.pick(&[" ", ".", "x", "swift.", "urn:", "iso:", "ns:"])),
        8 => base[..base.len() - 1].to_string(),
        9 => base[1..].to_string(),
        10 => format!("{}.001.{:02}", m.short, r.below(20)),
        11 => format!("{}.{:03}.{}", m.short, r.below(4), &n.full[n.full.len() - 2..]),
        12 => format!("{}.{:03}", &m.short[..4], r.below(130)),
        13 => (*r.pick(&["", " ", "Unknown", "Document", "AppHdr", "unknown.type", "FinInstnCdtTrf", "Rct", "ClmNonRct", "ClaimNonReceiptV07", "camt.027", "camt.027.001.07", "pacs.008.001.08.stp", "$value", "@Ccy"])).to_string(),
        14 => {
            let pool = if !d.new_strings.is_empty() && r.chance(0.7) { &d.new_strings } else { &d.strings };
            if pool.is_empty() { base } else { r.pick(pool).clone() }
        }
        _ => hostile(r),
    }
}
pub fn c15(run: &Run) {
    run.rule("case = one lookup of an identifier (every registered short form, full form, element name and struct name; and near misses: other case, truncated, padded, other versions, names from the source) through every registry function, or one Document variant asked for its namespace; oracle: the table of the 25 types of the message set; non-trivial = distinct identifiers");
    let check = |c: &mut Case, t: &str| {
        c.eval(t.as_bytes());
        let e = entry(t);
        let by_el = MTS.iter().find(|m| m.tag == t || m.rust == t);
        c.saw("identifiers", t.as_bytes());
        c.count(if e.is_some() || by_el.is_some() { "known_identifiers" } else { "unknown_identifiers" }, 1);
        let ns = format!("{NS}{}", e.map_or(t, |m| m.full));
        let norm = e.map_or(t, |m| m.short);
        let mut bad = |f: &str, got: String, want: String| {
            if got != want {
                c.fail(&format!("C15|{f}|{}", if e.is_some() || by_el.is_some() { t } else { "unknown identifier" }), json!({"identifier": t, "got": got, "expected": want}));
            }
        };
        bad("get_namespace", reg::get_namespace(t), ns.clone());
        bad("get_namespace_for_message_type", mx_envelope::get_namespace_for_message_type(t), ns);
        bad("normalize_message_type", reg::normalize_message_type(t), norm.into());
        bad("envelope normalize_message_type", mx_envelope::normalize_message_type(t), norm.into());
        bad("element_to_message_type", format!("{:?}", reg::element_to_message_type(t)), format!("{:?}", by_el.map(|m| m.short)));
        bad("message_type_to_element", format!("{:?}", reg::message_type_to_element(t)), format!("{:?}", e.map(|m| m.tag)));
        bad("message_type_to_rust_type", format!("{:?}", reg::message_type_to_rust_type(t)), format!("{:?}", e.map(|m| m.rust)));
        bad("get_full_form", format!("{:?}", reg::get_full_form(t)), format!("{:?}", e.map(|m| m.full)));
        let legacy = match t {
            "FinInstnCdtTrf" => Some("pacs.009"),
            "Rct" => Some("camt.025"),
            "ClmNonRct" | "ClaimNonReceiptV07" => Some("camt.027"),
            _ => by_el.map(|m| m.short),
        };
        bad("map_document_element_to_message_type", format!("{:?}", common::map_document_element_to_message_type(t).ok()), format!("{:?}", legacy.map(String::from)));
    };
    run.rounds(|_| {
        run.par("table", MTS.len() as u64, |c| {
            let m = &MTS[c.idx as usize];
            for t in [m.short, m.full, m.tag, m.rust] {
                check(c, t);
            }
            let rows: Vec<_> = reg::MESSAGE_REGISTRY.iter().filter(|i| i.short_form == m.short).collect();
            if rows.len() != 1 || reg::MESSAGE_REGISTRY.len() != MTS.len() || (rows[0].full_form, rows[0].rust_type_name, rows[0].xml_element_name) != (m.full, m.rust, m.tag) {
                c.fail(&format!("C15|registry rows|{}", m.short), json!({"rows": rows.len(), "registry": reg::MESSAGE_REGISTRY.len()}));
            }
        });
        run.par("random", if run.thorough() { 60000 } else { 20000 }, |c| {
            let t = ident(c);
            check(c, &t);
            c.sample(|| json!({"identifier": t}));
        });
        run.par("variants", (MTS.len() * 12) as u64, |c| {
            let m = &MTS[c.idx as usize % MTS.len()];
            let mut g = message(c.run.s, m, &[], &[], &mut c.rng, &Cfg::default(), None);
            let id = match c.idx as usize / MTS.len() { 0 => m.full.to_string(), 1 => m.short.to_string(), _ => ident(c) };
            set_text(hdr_module(c.run.s), &mut g.hdr, "MsgDefIdr", &id);
            c.eval(format!("{}|{id}", m.short).as_bytes());
            let Ok(x) = MxMessage::from_json(&msg_json(c.run.s, m, &g).to_string()) else { return c.fail(&format!("C15|build|{}", m.short), json!({"MsgDefIdr": id})) };
            let want = format!("{NS}{}", m.full);
            let ns = format!("{NS}{}", entry(&id).map_or(id.as_str(), |m| m.full));
            let got = (x.document.namespace(), x.namespace().unwrap_or_default(), x.message_type().unwrap_or_default().to_string(), variant_name(&x.document));
            if got != (want, ns, id.clone(), m.variant) {
                c.fail(&format!("C15|message accessors|{}", m.short), json!({"MsgDefIdr": id, "got": format!("{got:?}")}));
            }
            let n = MxMessage::new(x.app_hdr.clone(), x.document.clone());
            if n.app_hdr != x.app_hdr || n.document != x.document || n.xmlns.as_deref() != Some("urn:iso:std:iso:20022:tech:xsd:head.001.001.02") || n.xmlns_xsi.as_deref() != Some("http://www.w3.org/2001/XMLSchema-instance") {
                c.fail(&format!("C15|new|{}", m.short), json!({"xmlns": n.xmlns, "xmlns:xsi": n.xmlns_xsi}));
            }
        });
    });
}

// C16 -----------------------------------------------------------------
fn parse_meta(x: &str) -> Option<String> {
    let mut m = plug::message(json!({"in": x}), Value::Null);
    plug::call("parse_mx", &mut m, &plug::custom("parse_mx", json!({"source": "in", "target": "out"}))).ok()?;
    m.metadata()["out"]["message_type"].as_str().map(String::from)
}
pub fn c16(run: &Run) {
    run.rule("case = one message of one type (every type in turn; header identifier in full form, short form, other version, padded with white space or comments, or foreign; texts that contain identifiers and tags of other types; random layouts) asked for its type in every way the library offers (peeks, full reading, message accessors, extraction from XML and JSON, parse_mx metadata), or a text without an identifier, where every peek must fail; non-trivial = distinct texts");
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("agree", if run.thorough() { 8000 } else { 3000 }, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let text = *c.rng.pick(&[Text::Valid, Text::Hostile]);
            let mine: Vec<_> = sp.paths.iter().filter(|(t, _)| MTS[*t].short == mt.short).collect();
            let path = &mine[c.rng.below(mine.len())].1;
            let mut g = message(c.run.s, mt, path, &[], &mut c.rng, &Cfg { text, p_opt: 0.05, budget: 60, ..Cfg::default() }, Some(c.run.dict));
            let other = &MTS[c.rng.below(MTS.len())];
            let id = match c.rng.below(8) {
                0..=3 => mt.full.to_string(),
                4 => mt.short.to_string(),
                5 => format!("{}.001.{:02}", mt.short, c.rng.below(20)),
                6 => other.full.to_string(),
                _ => { let t = hostile(&mut c.rng); if t.is_empty() { "x".into() } else { t } }
            };
            set_text(hdr_module(c.run.s), &mut g.hdr, "MsgDefIdr", &id);
            let st = if c.rng.chance(0.3) { EnvStyle::plain() } else { EnvStyle::random(&mut c.rng, mt.full) };
            let m = c.run.s.doc(mt.module);
            let x = envelope(hdr_module(c.run.s), m, mt.tag, &g, &st);
            let mut j = msg_json(c.run.s, mt, &g);
            let norm = entry(&id).map_or(id.as_str(), |m| m.short).to_string();
            c.eval(x.as_bytes());
            c.saw("types", mt.short.as_bytes());
            c.saw("identifiers", id.as_bytes());
            let mut bad = |what: &str, got: Option<String>, want: &str| {
                if got.as_deref() != Some(want) {
                    c.fail(&format!("C16|{what}|{}", mt.short), json!({"got": got, "expected": want, "xml": clip(&x, 3000)}));
                }
            };
            bad("peek_message_type_from_xml", mx_envelope::peek_message_type_from_xml(&x).ok(), &norm);
            bad("peek_message_type_from_json", mx_envelope::peek_message_type_from_json(&j.to_string()).ok(), &norm);
            bad("peek_message_type_from_json (Envelope)", mx_envelope::peek_message_type_from_json(&json!({"Envelope": j}).to_string()).ok(), &norm);
            match MxMessage::from_xml(&x) {
                Err(e) => bad("from_xml", Some(e.to_string()), "a message"),
                Ok(y) => {
                    bad("message_type", y.message_type().ok().map(String::from), &id);
                    bad("variant", Some(variant_name(&y.document).into()), mt.variant);
                    if let Ok(z) = y.to_xml() {
                        bad("peek after to_xml", mx_envelope::peek_message_type_from_xml(&z).ok(), &norm);
                        bad("extract_message_type_from_xml after to_xml", common::extract_message_type_from_xml(&z).ok(), mt.short);
                    }
                    bad("extract_message_type", common::extract_message_type(&to_value(&y).unwrap_or_default()).ok(), mt.short);
                }
            }
            match MxMessage::from_json(&j.to_string()) {
                Err(e) => bad("from_json", Some(e.to_string()), "a message"),
                Ok(y) => bad("variant from JSON", Some(variant_name(&y.document).into()), mt.variant),
            }
            bad("extract_message_type_from_xml", common::extract_message_type_from_xml(&x).ok(), mt.short);
            let d = document_only(m, mt.tag, &g.doc, &st);
            bad("extract_message_type_from_xml(Document)", common::extract_message_type_from_xml(&d).ok(), mt.short);
            if c.idx % 3 == 0 {
                // parse_mx turns a literal backslash-n into a line break; identification does not depend on it
                let (a, b) = (parse_meta(&x), parse_meta(&d));
                let mut bad = |what: &str, got: Option<String>| {
                    if got.as_deref() != Some(mt.short) {
                        c.fail(&format!("C16|{what}|{}", mt.short), json!({"got": got, "expected": mt.short, "xml": clip(&x, 3000)}));
                    }
                };
                bad("parse_mx metadata", a);
                bad("parse_mx(Document) metadata", b);
            }
            j["message_type"] = json!("zz.999");
            if common::extract_message_type(&j).ok().as_deref() != Some("zz.999") {
                c.fail("C16|explicit message_type field", json!({"got": common::extract_message_type(&j).ok()}));
            }
            c.sample(|| json!({"MsgDefIdr": id, "type": mt.short, "xml": clip(&x, 400)}));
        });
        // nothing to identify
        run.par("none", 2000, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: 0.05, budget: 60, ..Cfg::default() }, None);
            let m = c.run.s.doc(mt.module);
            let mut g2 = g.clone();
            let h = hdr_module(c.run.s);
            let i = h.fields(h.root).iter().position(|f| f.xml == "MsgDefIdr").unwrap();
            let rl = h.fields(h.root).iter().position(|f| f.xml == "Rltd").unwrap();
            g2.hdr.slot_mut(&[i]).unwrap().occ.clear();
            g2.hdr.slot_mut(&[rl]).unwrap().occ.clear();
            let st = EnvStyle::random(&mut c.rng, mt.full);
            let x = match c.rng.below(5) {
                0 => envelope(h, m, mt.tag, &g2, &st),
                1 => document_only(m, mt.tag, &g2.doc, &st),
                2 => envelope(h, m, mt.tag, &g2, &EnvStyle::plain()).replace("<AppHdr>", &format!("<AppHdr><!-- <MsgDefIdr>{}</MsgDefIdr> -->", mt.full)),
                3 => envelope(h, m, mt.tag, &g2, &EnvStyle::plain()).replace("<AppHdr>", "<AppHdr><MsgDefIdr></MsgDefIdr>"),
                _ => envelope(h, m, mt.tag, &g2, &EnvStyle::plain()).replace("<AppHdr>", "<AppHdr><MsgDefIdr/>"),
            };
            c.eval(x.as_bytes());
            if let Ok(t) = mx_envelope::peek_message_type_from_xml(&x) {
                c.fail("C16|peek invents a type|xml", json!({"got": t, "xml": clip(&x, 2000)}));
            }
            let mut j = msg_json(c.run.s, mt, &g);
            let k = c.rng.below(6);
            let text = match k {
                0 => { j["AppHdr"].as_object_mut().unwrap().remove("MsgDefIdr"); j.to_string() }
                1 => { j.as_object_mut().unwrap().remove("AppHdr"); j.to_string() }
                2 => { j["AppHdr"]["MsgDefIdr"] = c.rng.pick(&[json!(8), Value::Null, json!(["pacs.008"]), json!({"$value": "pacs.008"}), json!(true), json!("")]).clone(); j.to_string() }
                3 => { let s = j.to_string(); let mut n = c.rng.below(s.len()); while !s.is_char_boundary(n) { n -= 1 } s[..n].to_string() }
                4 => { j["AppHdr"] = json!("MsgDefIdr"); j.to_string() }
                _ => json!({"MsgDefIdr": mt.full, "x": {"AppHdr": {"MsgDefIdr": mt.full}}}).to_string(),
            };
            c.eval(text.as_bytes());
            if let Ok(t) = mx_envelope::peek_message_type_from_json(&text) {
                c.fail("C16|peek invents a type|json", json!({"got": t, "json": clip(&text, 2000)}));
            }
            // no known document element
            let e: Value = c.rng.pick(&[json!({}), json!({"Document": {}}), json!({"Document": "FIToFICstmrCdtTrf"}), json!({"Document": {"Nope": {"FIToFICstmrCdtTrf": {}}}}), json!({"FIToFICstmrCdtTrf": {}}), json!([1]), json!(null), json!({"message_type": 8})]).clone();
            c.eval(e.to_string().as_bytes());
            if let Ok(t) = common::extract_message_type(&e) {
                c.fail("C16|extract_message_type invents a type", json!({"got": t, "data": e}));
            }
            let bx = (*c.rng.pick(&["", "<Document/>", "<Document></Document>", "<Document", "<a><FIToFICstmrCdtTrf/></a>", "<Document><Nope/></Document>", "<!-- <Document><FIToFICstmrCdtTrf> -->", "<Document>FIToFICstmrCdtTrf</Document>", "<Document><!-- <FIToFICstmrCdtTrf> --></Document>", "text", "<Documents><FIToFICstmrCdtTrf/></Documents>"])).to_string();
            if let Ok(t) = common::extract_message_type_from_xml(&bx) {
                c.fail("C16|extract_message_type_from_xml invents a type", json!({"got": t, "xml": bx}));
            }
        });
        run.par("case", 400, |c| {
            let mut r: Rng = c.rng.clone();
            let mt = &MTS[r.below(MTS.len())];
            let p = *r.pick(&["", "ns:", "doc:"]);
            let x = format!("<Document xmlns{}=\"{NS}{}\"><{p}{}><a/></{p}{}></Document>", if p.is_empty() { "".into() } else { format!(":{}", &p[..p.len() - 1]) }, mt.full, mt.tag, mt.tag);
            c.eval(x.as_bytes());
            if common::extract_message_type_from_xml(&x).ok().as_deref() != Some(mt.short) {
                c.fail("C16|extract_message_type_from_xml|prefixed", json!({"xml": x}));
            }
        });
    });
}
