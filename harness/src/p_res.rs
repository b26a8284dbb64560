//! C32: memory; and the scaling part of C17
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::plug;
use crate::rng::Rng;
use mx_message::mx_envelope::{self, MxMessage};
use mx_message::parse_result::ParserConfig;
use mx_message::plugin::common;
use serde_json::{Value, json};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts what the current thread allocates and frees
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
fn note(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        if d > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + d as u64));
            let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
/// (bytes still allocated afterwards, highest number of bytes in use at once)
pub fn memory<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let l0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l0));
    let r = f();
    let (l1, p) = (LIVE.with(|l| l.get()), PEAK.with(|p| p.get()));
    (r, l1 - l0, p - l0)
}
/// What one operation works on
pub enum Work {
    Xml(String),
    Json(String),
    Msg(Box<MxMessage>),
}
pub const OPS: &[&str] = &["from_xml", "peek xml", "extract type", "typed Document", "envelope check", "untyped", "parse_mx", "validate_mx", "from_json", "peek json", "publish_mx", "to_xml", "to_json", "validate", "validate fail_fast", "map element", "registry"];
pub fn kind_of(op: &str) -> u8 {
    match op {
        "from_json" | "peek json" | "publish_mx" => 1,
        "to_xml" | "to_json" | "validate" | "validate fail_fast" => 2,
        _ => 0,
    }
}
/// runs the operation and drops everything it produced; true = it succeeded
pub fn operate(op: &str, short: &str, w: &Work) -> bool {
    match (op, w) {
        ("from_xml", Work::Xml(x)) => MxMessage::from_xml(x).is_ok(),
        ("peek xml", Work::Xml(x)) => mx_envelope::peek_message_type_from_xml(x).is_ok(),
        ("extract type", Work::Xml(x)) => common::extract_message_type_from_xml(x).is_ok(),
        ("typed Document", Work::Xml(x)) => mx_message::xml::xml_to_json_via_document(x, short).is_ok(),
        ("envelope check", Work::Xml(x)) => mx_message::xml::from_mx_xml_envelope_str(x, short).is_ok(),
        ("untyped", Work::Xml(x)) => mx_message::xml::from_mx_xml_to_json(x).is_ok(),
        ("map element", Work::Xml(x)) => common::map_document_element_to_message_type(x).is_ok(),
        ("registry", Work::Xml(x)) => !mx_message::message_registry::normalize_message_type(x).is_empty() && !mx_message::message_registry::get_namespace(x).is_empty(),
        ("parse_mx" | "validate_mx", Work::Xml(x)) => {
            let mut m = plug::message(json!({"in": x}), Value::Null);
            plug::call(op, &mut m, &plug::custom(op, json!({"source": "in", "target": "out"}))).is_ok()
        }
        ("publish_mx", Work::Json(x)) => {
            let v: Value = serde_json::from_str(x).unwrap_or(json!(x));
            let mut m = plug::message(json!({"in": v}), Value::Null);
            plug::call(op, &mut m, &plug::custom(op, json!({"source": "in", "target": "out"}))).is_ok()
        }
        ("from_json", Work::Json(x)) => MxMessage::from_json(x).is_ok(),
        ("peek json", Work::Json(x)) => mx_envelope::peek_message_type_from_json(x).is_ok(),
        ("to_xml", Work::Msg(m)) => m.to_xml().is_ok(),
        ("to_json", Work::Msg(m)) => m.to_json().is_ok(),
        ("validate", Work::Msg(m)) => run_validate(&m.document, "", &ParserConfig::default()).is_empty(),
        ("validate fail_fast", Work::Msg(m)) => run_validate(&m.document, "", &ParserConfig::fail_fast()).is_empty(),
        _ => unreachable!(),
    }
}

/// A family of inputs of any size. None: not available for this operation.
pub fn sized(s: &'static crate::schema::Schema, shape: usize, op: &str, n: usize, seed: u64) -> Option<(String, Work, usize)> {
    let mut r = Rng::new(seed);
    let mt = &MTS[r.below(MTS.len())];
    let mut g = message(s, mt, &[], &[], &mut r, &Cfg { p_opt: 0.1, budget: 60, ..Cfg::default() }, None);
    let what;
    let m = s.doc(mt.module);
    if shape < 6 {
        // conforming, or with a text wrong in every entry
        what = bulk(s, mt, &mut g, n, &mut r)?;
        if shape >= 4 {
            g.doc.walk_mut(m, &mut |f, x| {
                if let (Body::Str(t), false) = (&mut x.body, f.xml.starts_with('@')) {
                    *t = "~".repeat(t.chars().count() + 1);
                }
            });
        }
        let w = match kind_of(op) {
            0 => {
                let st = if shape % 2 == 0 { EnvStyle::plain() } else { EnvStyle::random(&mut Rng::new(!seed), mt.full) };
                Work::Xml(if op == "typed Document" || op == "extract type" || (shape == 3 && op != "from_xml" && op != "peek xml") { document_only(m, mt.tag, &g.doc, &st) } else { envelope(hdr_module(s), m, mt.tag, &g, &st) })
            }
            1 => Work::Json(msg_json(s, mt, &g).to_string()),
            _ => Work::Msg(Box::new(MxMessage::from_json(&msg_json(s, mt, &g).to_string()).ok()?)),
        };
        let size = match &w { Work::Xml(x) | Work::Json(x) => x.len(), Work::Msg(_) => n };
        return Some((format!("{}:{what}", mt.short), w, size));
    }
    // hostile fillings
    let fill = |n: usize| -> String {
        match shape {
            6 => "x".repeat(n),
            7 => "&amp;".repeat(n / 5),
            8 => "<x/>".repeat(n / 4),
            9 => "<!-- c -->".repeat(n / 10),
            10 => "é中".repeat(n / 5),
            11 => "<Document>".repeat(n / 10),
            12 => "<![CDATA[<AppHdr>]]>".repeat(n / 20),
            13 => "<".repeat(n),
            14 => "\\n".repeat(n / 2),
            15 => "\"".repeat(n),
            16 => " \r\n".repeat(n / 3),
            17 => "<x y=\"1\" z='2'/>".repeat(n / 16),
            18 => "<a>1</a><b>2</b>".repeat(n / 16),
            19 => "&lt;Document&gt;".repeat(n / 15),
            _ => "]]>".repeat(n / 3),
        }
    };
    let f = fill(n);
    let place = r.below(4);
    match kind_of(op) {
        0 => {
            let h = envelope(hdr_module(s), m, mt.tag, &g, &EnvStyle::plain());
            let at = match place {
                0 => 0,
                1 => h.find("<AppHdr>").map_or(0, |i| i + 8),
                2 => h.rfind("</Document").unwrap_or(h.len()),
                _ => h.find("<MsgDefIdr>").map_or(0, |i| i + 11),
            };
            let x = format!("{}{f}{}", &h[..at], &h[at..]);
            let l = x.len();
            Some((format!("fill {shape} at {place}"), Work::Xml(x), l))
        }
        1 => {
            let mut j = msg_json(s, mt, &g);
            match place {
                0 => j["AppHdr"]["BizMsgIdr"] = json!(f),
                1 => j["@xmlns"] = json!(f),
                2 => j[f.as_str()] = json!(1),
                _ => j["Document"][mt.tag]["Unknown"] = json!(f),
            }
            let x = j.to_string();
            let l = x.len();
            Some((format!("fill {shape} at {place}"), Work::Json(x), l))
        }
        _ => {
            let mut x = MxMessage::from_json(&msg_json(s, mt, &g).to_string()).ok()?;
            if place == 0 { x.xmlns = Some(f) } else { x.app_hdr.biz_msg_idr = f }
            Some((format!("fill {shape} at {place}"), Work::Msg(Box::new(x)), n))
        }
    }
}
pub const SHAPES: usize = 21;

pub fn cpu() -> f64 {
    let t = std::fs::read_to_string("/proc/thread-self/schedstat").ok().and_then(|t| t.split(' ').next().and_then(|n| n.parse::<f64>().ok()));
    t.unwrap_or(0.0) / 1e9
}
/// CPU time may grow with the size, not with its square
fn measure(c: &mut Case, op: &str, short: &str, name: &str, sig: &str, (a, na): (Work, usize), (b, nb): (Work, usize)) {
    let ratio = nb as f64 / na as f64;
    if ratio < 4.0 {
        return;
    }
    let time = |w: &Work, k: usize| {
        (0..k)
            .map(|_| {
                let t0 = cpu();
                let _ = no_panic(|| operate(op, short, w));
                cpu() - t0
            })
            .fold(f64::MAX, f64::min)
    };
    c.eval(format!("{op}|{name}").as_bytes());
    // generous: three times linear, and only from a quarter second upwards
    let bad = |ta: f64, tb: f64| tb > 0.25 && tb > 3.0 * ratio * ta;
    let (mut ta, mut tb) = (time(&a, 2), time(&b, 1));
    if bad(ta, tb) {
        for _ in 0..3 {
            ta = ta.max(time(&a, 3));
            tb = tb.min(time(&b, 1));
        }
        if bad(ta, tb) {
            return c.fail(sig, json!({"operation": op, "input": name, "bytes": [na, nb], "cpu_seconds": [ta, tb], "why": "CPU time grows faster than the size of the text"}));
        }
    }
    c.count("scaling_pairs_measured", 1);
}
pub fn scaling(run: &Run) {
    let (small, large) = (30_000usize, 480_000usize);
    run.par("scaling", (OPS.len() * SHAPES) as u64, |c| {
        let op = OPS[c.idx as usize % OPS.len()];
        let shape = c.idx as usize / OPS.len();
        let seed = c.rng.next();
        let (Some((_, _, no)), Some((name, a, na)), Some((_, b, nb))) = (sized(c.run.s, shape, op, 1, seed), sized(c.run.s, shape, op, small, seed), sized(c.run.s, shape, op, large, seed)) else { return };
        let short = MTS[Rng::new(seed).below(MTS.len())].short;
        c.saw("operation_and_shape", format!("{op}|{shape}").as_bytes());
        measure(c, op, short, &name, &format!("C17|superlinear|{op}|shape {shape}"), (a, na - no.min(na - 1)), (b, nb - no.min(nb - 1)));
    });
    // one element with very many attributes
    let ops: Vec<&str> = OPS.iter().copied().filter(|o| kind_of(o) == 0 && !matches!(*o, "registry" | "map element")).collect();
    run.par("attributes", (ops.len() * 4) as u64, |c| {
        let op = ops[c.idx as usize % ops.len()];
        let place = c.idx as usize / ops.len();
        let mt = &MTS[0];
        let g = message(c.run.s, mt, &[], &[], &mut c.rng, &Cfg { p_opt: 0.0, budget: 60, ..Cfg::default() }, None);
        let doc_only = matches!(op, "typed Document" | "extract type");
        let m = c.run.s.doc(mt.module);
        let x = if doc_only { document_only(m, mt.tag, &g.doc, &EnvStyle::plain()) } else { envelope(hdr_module(c.run.s), m, mt.tag, &g, &EnvStyle::plain()) };
        let tag = match place {
            0 => if doc_only { "<Document" } else { "<Envelope" }.to_string(),
            1 => "<GrpHdr".into(),
            2 => format!("<{}", mt.tag),
            _ => if doc_only { "<MsgId" } else { "<Fr" }.to_string(),
        };
        let with = |n: usize| {
            let a: String = (0..n / 14).map(|i| format!(" a{i:05}=\"{i}\"")).collect();
            let t = x.replacen(&tag, &format!("{tag}{a}"), 1);
            let l = t.len();
            (Work::Xml(t), l)
        };
        measure(c, op, mt.short, &format!("attributes of {tag}"), &format!("C17|superlinear|{op}|attributes"), with(small), with(large / 2));
    });
}

// C32 -----------------------------------------------------------------
pub fn c32(run: &Run) {
    run.rule("case = one operation over messages of growing size (bytes in use at once measured by a counting allocator), or a long run of one operation over thousands of distinct messages, readable and unreadable (bytes left after each dropped its results); non-trivial = distinct (operation, input)");
    run.rounds(|_| {
        run.par("peak", (OPS.len() * SHAPES) as u64, |c| {
            let op = OPS[c.idx as usize % OPS.len()];
            let shape = c.idx as usize / OPS.len();
            let seed = c.rng.next();
            let (small, large) = (40_000, 640_000);
            let (Some((_, o, no)), Some((name, a, na)), Some((_, b, nb))) = (sized(c.run.s, shape, op, 1, seed), sized(c.run.s, shape, op, small, seed), sized(c.run.s, shape, op, large, seed)) else { return };
            let short = MTS[Rng::new(seed).below(MTS.len())].short;
            c.eval(format!("{op}|{name}").as_bytes());
            c.saw("operation_and_shape", format!("{op}|{shape}").as_bytes());
            let run1 = |w: &Work| no_panic(|| memory(|| operate(op, short, w))).map_or((0, 0), |(_, l, p)| (l, p));
            run1(&a);
            let (_, pa) = run1(&a);
            let (_, po) = run1(&o);
            c.count("sum_of_peak_bytes_of_small_messages", po as u64);
            if po as f64 > 2000.0 * no as f64 + 1_000_000.0 {
                c.fail(&format!("C32|excessive for a small message|{op}"), json!({"operation": op, "input": name, "bytes": no, "peak": po}));
            }
            let (lb, pb) = run1(&b);
            // the part that grows: what is in the message besides may weigh more or less per byte
            let ratio = nb.saturating_sub(no) as f64 / na.saturating_sub(no).max(1) as f64;
            c.count("sum_of_peak_bytes_in_use", pb as u64);
            if ratio > 4.0 && pb as f64 > 2.5 * ratio * pa as f64 + 1_000_000.0 {
                c.fail(&format!("C32|superlinear|{op}|fill {shape}"), json!({"operation": op, "input": name, "bytes": [no, na, nb], "peak": [pa, pb]}));
            }
            if pb as f64 > 2000.0 * nb as f64 + 1_000_000.0 {
                c.fail(&format!("C32|excessive|{op}|fill {shape}"), json!({"operation": op, "input": name, "bytes": nb, "peak": pb}));
            }
            let _ = lb;
        });
        let per = if run.thorough() { 6000 } else { 2000 };
        run.par("kept", (OPS.len() * 4) as u64, |c| {
            let op = OPS[c.idx as usize % OPS.len()];
            let s = c.run.s;
            let flavour = c.idx as usize / OPS.len();
            let mut sum = 0u64;
            // a fixed set of shapes, so that whatever may be remembered per pattern, field or type
            // is known after the warm-up: after that only the texts are new
            let pool: Vec<(usize, u64, Msg)> = (0..2 * MTS.len())
                .map(|i| {
                    let cfg = Cfg { p_opt: 0.05, budget: 50, ..Cfg::default() };
                    (i % MTS.len(), c.rng.next(), message(s, &MTS[i % MTS.len()], &[], &[], &mut c.rng, &cfg, None))
                })
                .collect();
            let mut step = |c: &mut Case, k: usize| -> i64 {
                let (mi, ms, g) = &pool[k % pool.len()];
                let (mt, mut g) = (&MTS[*mi], g.clone());
                let unreadable = flavour >= 2;
                // distinct texts every time
                let id = format!("{:08x}{:04}", c.rng.next() as u32, k % 10000);
                set_text(hdr_module(s), &mut g.hdr, "BizMsgIdr", &id);
                g.doc.walk_mut(s.doc(mt.module), &mut |f, x| {
                    if let (Body::Str(t), false) = (&mut x.body, f.xml.starts_with('@')) {
                        if matches!(f.xml.as_str(), "MsgId" | "EndToEndId" | "InstrId" | "Nm" | "Id" | "UETR" | "AddtlInf") && t.len() >= 8 {
                            *t = if unreadable && kind_of(op) == 2 { format!("~{id}~") } else { id.clone() };
                        }
                    }
                });
                let mut mr = Rng::new(*ms);
                let w = match kind_of(op) {
                    0 => {
                        let x = if flavour % 2 == 1 { document_only(s.doc(mt.module), mt.tag, &g.doc, &EnvStyle::plain()) } else { envelope(hdr_module(s), s.doc(mt.module), mt.tag, &g, &EnvStyle::plain()) };
                        Work::Xml(if unreadable { crate::p_robust::mutate(&mut mr, c.run.dict, &x, 3) } else { x })
                    }
                    1 => {
                        let x = msg_json(s, mt, &g).to_string();
                        Work::Json(if unreadable { crate::p_robust::mutate(&mut mr, c.run.dict, &x, 3) } else { x })
                    }
                    _ => match MxMessage::from_json(&msg_json(s, mt, &g).to_string()) {
                        Ok(m) => Work::Msg(Box::new(m)),
                        Err(_) => return 0,
                    },
                };
                if let Work::Xml(x) | Work::Json(x) = &w {
                    sum += x.len() as u64;
                    c.eval(x.as_bytes());
                } else {
                    c.eval(format!("{op}{id}{flavour}").as_bytes());
                }
                no_panic(|| memory(|| operate(op, mt.short, &w))).map_or(0, |x| x.1)
            };
            let warm: i64 = (0..per / 2).map(|k| step(c, k)).sum();
            let part = per / 10;
            let kept: Vec<i64> = (0..5).map(|i| (per / 2 + i * part..per / 2 + (i + 1) * part).map(|k| step(c, k)).sum()).collect();
            c.saw("long_runs", format!("{op}|{flavour}").as_bytes());
            c.count("bytes_processed_in_long_runs", sum);
            // growing tables grow in jumps, so the total counts, and at least three fifths of the parts
            let total: i64 = kept.iter().sum();
            if total > 12_000 && kept.iter().filter(|k| **k > 1_000).count() >= 3 {
                c.fail(&format!("C32|memory kept|{op}"), json!({"operation": op, "messages": per, "kept_first_half": warm, "kept_in_each_tenth_of_second_half": kept, "bytes_per_message": total as f64 / (per / 2) as f64}));
            }
        });
    });
}
