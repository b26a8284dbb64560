//! C17: reading arbitrary input never panics, aborts or hangs
use crate::api::*;
use crate::dict::Dict;
use crate::fw::*;
use crate::gen_::*;
use crate::rng::Rng;

const TOKENS: &[&str] = &[
    "<", ">", "&", "\"", "'", "/", "=", "</", "/>", "<!", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml", "<!DOCTYPE a [", "]>", "<!ENTITY a \"b\">", "&amp;", "&lt", "&#", "&#x", "&#0;", "&#x110000;", "&#xD800;", "&a;", "<Document>", "</Document>", "<Document", "<AppHdr>", "</AppHdr>", "<AppHdr/>", "<Document/>", "<Envelope", "xmlns=", "xmlns:xsi=\"", "<MsgDefIdr>", "<MsgDefIdr/>", "{", "}", "[", "]", ":", ",", "null", "true", "\\", "\\u0000", "\\uD800", "1e999", "-", "\u{0}", "\u{FEFF}", "é", "\u{1F600}", "\u{301}", "\r", "\n", "\t", " ", "NaN", "$value", "@Ccy", "<a b='c' b='d'>", "<a:b>", "<$value>", "<@Ccy>",
];
/// up to `k` random edits of a text
pub fn mutate(r: &mut Rng, d: &Dict, x: &str, k: usize) -> String {
    let mut c: Vec<char> = x.chars().collect();
    for _ in 0..1 + r.below(k) {
        let n = c.len();
        let at = if n == 0 { 0 } else { r.below(n + 1) };
        let span = |r: &mut Rng| if r.chance(0.7) { 1 + r.below(8) } else { 1 + r.below(400) };
        // markup positions are where the code decides
        let tag = |r: &mut Rng, c: &[char]| -> Option<usize> {
            let v: Vec<usize> = c.iter().enumerate().filter(|(_, x)| matches!(x, '<' | '>' | '"' | '{' | '}' | ',' | ':')).map(|x| x.0).collect();
            if v.is_empty() { None } else { Some(*r.pick(&v)) }
        };
        let at = if r.chance(0.5) { tag(r, &c).unwrap_or(at) } else { at };
        match r.below(9) {
            0 => c.truncate(at),
            1 => { let e = (at + span(r)).min(n); c.drain(at.min(e)..e); }
            2 => { let e = (at + span(r)).min(n); let s: Vec<char> = c[at.min(e)..e].to_vec(); let p = r.below(c.len() + 1); c.splice(p..p, s); }
            3 | 4 => { let t: Vec<char> = r.pick(TOKENS).chars().collect(); c.splice(at..at, t); }
            5 => {
                let pool = if !d.new_strings.is_empty() && r.chance(0.6) { &d.new_strings } else { &d.strings };
                if !pool.is_empty() {
                    let t: Vec<char> = r.pick(pool).chars().collect();
                    c.splice(at..at, t);
                }
            }
            6 => if at < n { c[at] = *r.pick(&['<', '>', '&', '"', '\0', 'é', '\u{10FFFF}', ' ', '0', 'Z', '/', '\u{FFFD}']) },
            7 => if at < n { c.remove(at); },
            // swap two pieces
            _ => if n > 4 { let a = r.below(n / 2); let b = n / 2 + r.below(n - n / 2); c.swap(a, b); },
        }
    }
    c.into_iter().collect()
}
fn cpu() -> f64 {
    let t = std::fs::read_to_string("/proc/thread-self/schedstat").ok().and_then(|t| t.split(' ').next().and_then(|n| n.parse::<f64>().ok()));
    t.unwrap_or(0.0) / 1e9
}
/// every reading entry point over one text; returns how many accepted it
pub fn feed(c: &mut Case, x: &str, plugins: bool) -> u64 {
    use mx_message::mx_envelope::{self, MxMessage};
    use mx_message::plugin::common;
    let mut ok = 0u64;
    let mut mt = &MTS[c.rng.below(MTS.len())];
    if c.rng.chance(0.7) {
        mt = MTS.iter().filter(|m| x.contains(m.tag)).max_by_key(|m| m.tag.len()).unwrap_or(mt);
    }
    let mut go = |name: &str, f: &mut dyn FnMut() -> bool| {
        let t0 = cpu();
        match no_panic(&mut *f) {
            Ok(b) => ok += b as u64,
            Err(p) => c.fail(&format!("C17|panic|{name}|{}", p.lines().next().unwrap_or("")), serde_json::json!({"entry": name, "panic": p, "input": clip(x, 6000), "bytes": x.len()})),
        }
        let dt = cpu() - t0;
        // megabyte-sized texts take well under a second
        if dt > 20.0 + x.len() as f64 / 1e5 {
            c.fail(&format!("C17|slow|{name}"), serde_json::json!({"entry": name, "cpu_seconds": dt, "input": clip(x, 3000), "bytes": x.len()}));
        }
        c.count("calls", 1);
    };
    go("from_xml", &mut || match MxMessage::from_xml(x) {
        Ok(m) => {
            let _ = m.to_xml();
            let _ = m.to_json();
            let _ = (m.namespace(), m.document.namespace());
            let _ = run_validate(&m.document, "", &Default::default());
            true
        }
        Err(e) => { let _ = e.to_string(); false }
    });
    go("from_json", &mut || match MxMessage::from_json(x) {
        Ok(m) => {
            let _ = m.to_xml();
            let _ = m.to_json();
            let _ = run_validate(&m.document, "", &Default::default());
            true
        }
        Err(_) => false,
    });
    go("peek_message_type_from_xml", &mut || mx_envelope::peek_message_type_from_xml(x).is_ok());
    go("peek_message_type_from_json", &mut || mx_envelope::peek_message_type_from_json(x).is_ok());
    go("extract_message_type_from_xml", &mut || common::extract_message_type_from_xml(x).is_ok());
    go("xml_to_json_via_document", &mut || mx_message::xml::xml_to_json_via_document(x, mt.short).is_ok());
    go("from_mx_xml_envelope_str", &mut || mx_message::xml::from_mx_xml_envelope_str(x, mt.short).is_ok());
    go("from_mx_xml_to_json", &mut || mx_message::xml::from_mx_xml_to_json(x).is_ok());
    if let Ok(v) = serde_json::from_str::<serde_json::Value>(x) {
        go("extract_message_type", &mut || common::extract_message_type(&v).is_ok());
        go("extract_mx_content", &mut || common::extract_mx_content(&v, "in", &v).is_ok());
    }
    go("registry", &mut || {
        use mx_message::message_registry as reg;
        let _ = (reg::get_namespace(x), reg::normalize_message_type(x), reg::get_full_form(x), reg::element_to_message_type(x));
        common::map_document_element_to_message_type(x).is_ok()
    });
    if plugins {
        for f in ["parse_mx", "validate_mx", "publish_mx", "generate_mx"] {
            let v = serde_json::from_str::<serde_json::Value>(x).unwrap_or(serde_json::json!(x));
            go(f, &mut || {
                let data = serde_json::json!({"in": if f == "publish_mx" { v.clone() } else { serde_json::json!(x) }});
                let mut m = crate::plug::message(data, serde_json::json!(x));
                crate::plug::call(f, &mut m, &crate::plug::custom(f, serde_json::json!({"source": "in", "target": "out"}))).is_ok()
            });
        }
    }
    ok
}
fn text(c: &mut Case, json: bool, opt: f64) -> String {
    let mt = &MTS[c.rng.below(MTS.len())];
    let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: opt, budget: 50, text: if c.idx % 3 == 0 { Text::Hostile } else { Text::Valid }, ..Cfg::default() }, Some(c.run.dict));
    if json {
        let j = msg_json(c.run.s, mt, &g);
        if c.rng.chance(0.5) { serde_json::to_string_pretty(&j).unwrap() } else { j.to_string() }
    } else {
        let st = if c.rng.chance(0.5) { EnvStyle::plain() } else { EnvStyle::random(&mut c.rng, mt.full) };
        if c.rng.chance(0.7) { envelope(hdr_module(c.run.s), c.run.s.doc(mt.module), mt.tag, &g, &st) } else { document_only(c.run.s.doc(mt.module), mt.tag, &g.doc, &st) }
    }
}
/// values that trip code which takes pieces of a text by position or splits it
const ODD: &[&str] = &[
    "", "a", "é", "aé€", "中文", "ab中", "\u{10FFFF}", "x\u{301}", "abcdefg\u{e9}", "pacs", "pacs.", ".", "..", "pacs.00é", "camt.053.001.", "-", "+", ":", "T", "Z", "2024", "2024-01", "2024-01-01T", "2024-01-01T10:00", "2024-01-01T10:00:00.+",
    "中-01-01T00:00:00Z", "/", "//", "0", "-0", "1.", ".5", "1e", "99999999999999999999999999", "é.00", "1,5", "true", " ", "\t", "\n", "&", "<", "]]>", "[", "{", "\"", "\\", "%", "%s", "{}", "EURO", "€UR", "ÉÉÉÉÉÉÉÉ", "DEUT中FF", "12345678-1234-4123-8123-12345678901é", "\u{feff}", "\u{a0}", "ſ", "İ", "ß",
];
/// run on a thread with the stack a worker thread of an async runtime has
fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    // sanitized code needs several times the stack
    let size = if std::env::var_os("MXMON_SANITIZER").is_some() { 32 << 20 } else { 2 << 20 };
    std::thread::scope(|s| std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join().unwrap())
}
pub fn c17(run: &Run) {
    run.rule("case = one text fed to all reading entry points of the library: a message with random edits (cuts, insertions of markup and of strings from the source, duplications, swaps), every prefix of a small message, deep nesting and very large or repetitive texts on the 2 MiB stack of a runtime worker thread; monitored: no panic, no abort of the process, no call that uses more CPU than a generous bound; non-trivial = distinct texts");
    run.rounds(|_| {
        run.par("mutated", if run.thorough() { 120_000 } else { 22_000 }, |c| {
            let json = c.rng.chance(0.3);
            let k = *c.rng.pick(&[0.0, 0.05, 0.2]);
            let x0 = text(c, json, k);
            let k = *c.rng.pick(&[1, 2, 4, 12]);
            let x = mutate(&mut c.rng, c.run.dict, &x0, k);
            c.eval(x.as_bytes());
            let plugins = c.idx % 6 == 0;
            let ok = feed(c, &x, plugins);
            c.count("accepted_by_some_entry", (ok > 0) as u64);
            c.sample(|| serde_json::json!({"text": clip(&x, 400)}));
        });
        // well-formed messages with several odd, short or missing values at once, header and document alike
        run.par("damaged", if run.thorough() { 40_000 } else { 8_000 }, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let text = *c.rng.pick(&[Text::Valid, Text::Hostile]);
            let p_opt = *c.rng.pick(&[0.0, 0.1, 0.4]);
            let mut g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt, budget: 60, text, ..Cfg::default() }, Some(c.run.dict));
            let mut r = Rng::new(c.rng.next());
            let dict = c.run.dict;
            for (tree, m) in [(&mut g.hdr, hdr_module(c.run.s)), (&mut g.doc, c.run.s.doc(mt.module))] {
                let (odd, gone) = (*r.pick(&[0.0, 0.1, 0.3, 1.0]), *r.pick(&[0.0, 0.0, 0.03, 0.2]));
                tree.walk_mut(m, &mut |_, n| match &mut n.body {
                    Body::Struct(slots) => slots.iter_mut().for_each(|s| {
                        match (r.chance(gone), r.chance(0.7)) {
                            (true, true) => s.occ.clear(),
                            (true, false) => s.occ.extend(s.occ.first().cloned()),
                            _ => {}
                        }
                    }),
                    b if r.chance(odd) => {
                        let v = if r.chance(0.15) && !dict.strings.is_empty() { r.pick(&dict.strings).clone() } else { r.pick(ODD).to_string() };
                        *b = if matches!(b, Body::Str(_)) { Body::Str(v) } else { Body::Enum(v) };
                    }
                    _ => {}
                });
                if let Body::Struct(slots) = &mut tree.body {
                    slots.iter_mut().filter(|_| r.chance(gone)).for_each(|s| s.occ.clear());
                }
            }
            let x = match c.rng.below(4) {
                0 => msg_json(c.run.s, mt, &g).to_string(),
                1 => document_only(c.run.s.doc(mt.module), mt.tag, &g.doc, &EnvStyle::plain()),
                _ => envelope(hdr_module(c.run.s), c.run.s.doc(mt.module), mt.tag, &g, &EnvStyle::plain()),
            };
            c.eval(x.as_bytes());
            let plugins = c.idx % 4 == 0;
            feed(c, &x, plugins);
        });
        // envelopes whose root, header or document carry attributes with structural words and
        // strings of the source as names and values
        run.par("attributes", if run.thorough() { 20_000 } else { 4_000 }, |c| {
            const WORDS: &[&str] = &["xmlns", "xmlns:", "xmlns=", "xmlns:xsi", "urn:xmlns", "xsi:schemaLocation", "AppHdr", "Document", "<AppHdr", "</Document>", "/", "=", ">", ":", "&amp;", "&lt;", "&#34;", "'", " ", "", "urn:", "iso:std:iso:20022:tech:xsd:", "pacs.008.001.08", "xml", "-->", "<?", "]]>", "é"];
            let mt = &MTS[c.idx as usize % MTS.len()];
            let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: 0.0, budget: 20, text: Text::Valid, ..Cfg::default() }, None);
            let mut r = Rng::new(c.rng.next());
            let dict = c.run.dict;
            let attrs = |r: &mut Rng| {
                let n = *r.pick(&[0usize, 1, 1, 2, 3]);
                (0..n).map(|i| {
                    let name = match r.below(6) {
                        0..=2 => "xmlns".to_string(),
                        3 => "xmlns:xsi".into(),
                        4 => format!("xmlns:{}", r.pick(&["doc", "ns2", "xmlns", "a"])),
                        _ => format!("a{i}"),
                    };
                    let mut v = String::new();
                    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 4]) {
                        if r.chance(0.25) && !dict.strings.is_empty() { v.push_str(&r.pick(&dict.strings).replace(['"', '<'], "")) } else { v.push_str(r.pick(WORDS)) }
                    }
                    let v = if r.chance(0.9) { v.replace('<', "&lt;") } else { v };
                    format!(" {name}{}\"{v}\"", r.pick(&["=", "=", "=", " = ", "=\n"]))
                }).collect::<String>()
            };
            let mut st = EnvStyle { root: Some(*r.pick(&["Envelope", "BusMsg", "Message", "RequestPayload"])), ..Default::default() };
            st.root_attr = attrs(&mut r);
            st.hdr_attr = attrs(&mut r);
            st.doc_attr = attrs(&mut r);
            if r.chance(0.2) { st.root = None }
            let x = envelope(hdr_module(c.run.s), c.run.s.doc(mt.module), mt.tag, &g, &st);
            c.eval(x.as_bytes());
            let ok = feed(c, &x, c.idx % 8 == 0);
            c.count("attributes_accepted_by_some_entry", (ok > 0) as u64);
        });
        // every prefix, in pieces of 40 cut points per case
        let per = 40usize;
        run.par("prefix", (MTS.len() * 60) as u64, |c| {
            let mt = &MTS[c.idx as usize % MTS.len()];
            let k = c.idx as usize / MTS.len();
            let mut r = Rng::for_case(c.run.seed, mt.short, 1);
            let g = message(c.run.s, mt, &[], &[], &mut r, &Cfg { p_opt: 0.0, budget: 10, text: Text::Valid, ..Cfg::default() }, None);
            let form = k % 3;
            let s = c.run.s;
            let x = match form {
                0 => envelope(hdr_module(s), s.doc(mt.module), mt.tag, &g, &EnvStyle::plain()),
                1 => document_only(s.doc(mt.module), mt.tag, &g.doc, &EnvStyle::plain()),
                _ => msg_json(s, mt, &g).to_string(),
            };
            let cuts: Vec<usize> = x.char_indices().map(|i| i.0).collect();
            // spread the cut points over the cases; near markup characters all of them
            let part = k / 3;
            for i in (0..per).map(|j| part + j * 20) {
                if let Some(at) = cuts.get(i) {
                    let p = &x[..*at];
                    c.eval(p.as_bytes());
                    feed(c, p, false);
                }
            }
        });
        run.par("deep", 72, |c| {
            let n = *c.rng.pick(&[60usize, 127, 128, 129, 500, 3000, 20_000, 200_000]);
            let kind = c.idx % 12;
            let open = |t: &str, n: usize| format!("<{t}>").repeat(n);
            let close = |t: &str, n: usize| format!("</{t}>").repeat(n);
            let h = text(c, false, 0.0);
            let x = match kind {
                0 => open("a", n) + &close("a", n),
                1 => format!("<Document><FIToFICstmrCdtTrf>{}{}</FIToFICstmrCdtTrf></Document>", open("a", n), close("a", n)),
                2 => open("Document", n),
                3 => format!("<Envelope>{}{}</Envelope>", open("AppHdr", n), close("AppHdr", n)),
                4 => "[".repeat(n) + &"]".repeat(n),
                5 => "{\"a\":".repeat(n) + "1" + &"}".repeat(n),
                6 => h.replacen("<AppHdr", &format!("{}<AppHdr", open("x", n)), 1) + &close("x", n),
                7 => h.replacen("</Document>", &format!("{}{}</Document>", open("x", n), close("x", n)), 1),
                8 => format!("{{\"AppHdr\": {}1{}, \"Document\": {{}}}}", "{\"Rltd\":".repeat(n), "}".repeat(n)),
                9 => "<!--".repeat(n),
                10 => format!("<?xml version=\"1.0\"?><!DOCTYPE a {}", "[<!ENTITY a \"&a;&a;\">".repeat(n.min(3000))),
                _ => "<Document><Rltd>".repeat(n),
            };
            c.eval(x.as_bytes());
            c.saw("deep_shapes", format!("{kind}/{n}").as_bytes());
            on_small_stack(|| feed(c, &x, true));
        });
        crate::p_res::scaling(run);
        run.par("huge", 40, |c| {
            let n = if c.run.thorough() { 3_000_000 } else { 400_000 };
            let h = text(c, false, 0.0);
            let fill = match c.idx % 8 {
                0 => "x".repeat(n),
                1 => "&amp;".repeat(n / 5),
                2 => "<x/>".repeat(n / 4),
                3 => "<!-- c -->".repeat(n / 10),
                4 => "é中".repeat(n / 5),
                5 => "<Document>".repeat(n / 10),
                6 => "<![CDATA[<AppHdr>]]>".repeat(n / 20),
                // many attributes of one element are a known finding of `scaling`; at this
                // size they only cost time
                _ => format!("<x {}/>", (0..n.min(400_000) / 12).map(|i| format!("a{i}=\"{i}\" ")).collect::<String>()),
            };
            let at = match c.idx / 8 % 5 {
                0 => 0,
                1 => h.find("<AppHdr").map_or(0, |i| i + 8),
                2 => h.find("</AppHdr").unwrap_or(0),
                3 => h.rfind("</Document").unwrap_or(h.len()),
                _ => h.find("MsgDefIdr").map_or(0, |i| i + 10),
            };
            let at = (at..=h.len()).find(|i| h.is_char_boundary(*i)).unwrap();
            let x = format!("{}{fill}{}", &h[..at], &h[at..]);
            c.eval(x.as_bytes());
            c.saw("huge_shapes", format!("{}", c.idx).as_bytes());
            c.count("bytes_of_huge_texts", x.len() as u64);
            on_small_stack(|| feed(c, &x, true));
        });
    });
}
