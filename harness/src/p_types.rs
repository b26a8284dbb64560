//! C26..C30: every document and header type on its own, Document-only texts, usage variants, namespaces
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::p_codec::{fresh, vary};
use crate::p_reject::is_mandatory;
use crate::schema::*;
use crate::xmlp;
use mx_message::mx_envelope::MxMessage;
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use mx_message::{document, header};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};

/// one schema type used directly, without the envelope
pub struct Typed {
    pub module: &'static str,
    pub header: bool,
    /// XML -> value -> JSON
    pub x2j: fn(&str) -> Result<Value, String>,
    /// JSON text -> value -> (XML below root `R`, JSON, does reading the XML give an equal value)
    pub j2x: fn(&str) -> Result<(String, Value, Result<bool, String>), String>,
    /// JSON -> value -> validation reports
    pub check: fn(&Value, &str, &ParserConfig) -> Result<Vec<(u32, String, String)>, String>,
}
fn x2j<T: DeserializeOwned + Serialize>(x: &str) -> Result<Value, String> {
    let v: T = quick_xml::de::from_str(x).map_err(|e| e.to_string())?;
    serde_json::to_value(&v).map_err(|e| e.to_string())
}
fn j2x<T: DeserializeOwned + Serialize + PartialEq + Clone + std::fmt::Debug>(j: &str) -> Result<(String, Value, Result<bool, String>), String> {
    let v: T = serde_json::from_str(j).map_err(|e| format!("reading JSON: {e}"))?;
    let x = quick_xml::se::to_string_with_root("R", &v).map_err(|e| format!("writing XML: {e}"))?;
    let back = quick_xml::de::from_str::<T>(&x).map(|w| w == v).map_err(|e| e.to_string());
    let out = serde_json::to_value(v.clone()).map_err(|e| format!("writing JSON: {e}"))?;
    Ok((x, out, back))
}
fn check<T: DeserializeOwned + Validate>(j: &Value, path: &str, cfg: &ParserConfig) -> Result<Vec<(u32, String, String)>, String> {
    let v: T = serde_json::from_value(j.clone()).map_err(|e| format!("reading JSON: {e}"))?;
    let mut c = ErrorCollector::new();
    v.validate(path, cfg, &mut c);
    Ok(c.errors().into_iter().map(|e| (e.code, e.path.unwrap_or_default(), e.field.unwrap_or_default())).collect())
}
macro_rules! typed { ($($g:ident::$m:ident::$t:ident),* $(,)?) => {
    pub const TYPED: &[Typed] = &[$(Typed {
        module: stringify!($m), header: matches!(stringify!($g).as_bytes()[0], b'h'),
        x2j: x2j::<$g::$m::$t>, j2x: j2x::<$g::$m::$t>, check: check::<$g::$m::$t>,
    }),*];
} }
typed! {
    document::admi_024_001_01::NotificationOfCorrespondenceV01,
    document::camt_025_001_08::ReceiptV08,
    document::camt_029_001_09::ResolutionOfInvestigationV09,
    document::camt_052_001_08::BankToCustomerAccountReportV08,
    document::camt_053_001_08::BankToCustomerStatementV08,
    document::camt_054_001_08::BankToCustomerDebitCreditNotificationV08,
    document::camt_055_001_08::CustomerPaymentCancellationRequestV08,
    document::camt_056_001_08::FIToFIPaymentCancellationRequestV08,
    document::camt_057_001_06::NotificationToReceiveV06,
    document::camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
    document::camt_060_001_05::AccountReportingRequestV05,
    document::camt_105_001_02::ChargesPaymentNotificationV02,
    document::camt_105_001_02_mc::ChargesPaymentNotificationV02,
    document::camt_106_001_02::ChargesPaymentRequestV02,
    document::camt_106_001_02_mc::ChargesPaymentRequestV02,
    document::camt_107_001_01::ChequePresentmentNotificationV01,
    document::camt_108_001_01::ChequeCancellationOrStopRequestV01,
    document::camt_109_001_01::ChequeCancellationOrStopReportV01,
    document::pacs_002_001_10::FIToFIPaymentStatusReportV10,
    document::pacs_003_001_08::FIToFICustomerDirectDebitV08,
    document::pacs_004_001_09::PaymentReturnV09,
    document::pacs_008_001_08::FIToFICustomerCreditTransferV08,
    document::pacs_008_001_08_stp::FIToFICustomerCreditTransferV08,
    document::pacs_009_001_08::FinancialInstitutionCreditTransferV08,
    document::pacs_009_001_08_adv::FinancialInstitutionCreditTransferV08,
    document::pacs_009_001_08_cov::FinancialInstitutionCreditTransferV08,
    document::pacs_010_001_03::FinancialInstitutionDirectDebitV03,
    document::pacs_010_001_03_mc::FinancialInstitutionDirectDebitV03,
    document::pain_001_001_09::CustomerCreditTransferInitiationV09,
    document::pain_002_001_10::CustomerPaymentStatusReportV10,
    document::pain_008_001_08::CustomerDirectDebitInitiationV08,
    header::bah_admi_024_001_01::BusinessApplicationHeaderV02,
    header::bah_camt_025_001_08::BusinessApplicationHeaderV02,
    header::bah_camt_029_001::BusinessApplicationHeaderV02,
    header::bah_camt_052_001_08::BusinessApplicationHeaderV02,
    header::bah_camt_053_001_08::BusinessApplicationHeaderV02,
    header::bah_camt_054_001::BusinessApplicationHeaderV02,
    header::bah_camt_055_001_08::BusinessApplicationHeaderV02,
    header::bah_camt_056_001_08::BusinessApplicationHeaderV02,
    header::bah_camt_057_001_06::BusinessApplicationHeaderV02,
    header::bah_camt_058_001_08::BusinessApplicationHeaderV02,
    header::bah_camt_060_001_05::BusinessApplicationHeaderV02,
    header::bah_camt_105_001_02::BusinessApplicationHeaderV02,
    header::bah_camt_105_001_02_mc::BusinessApplicationHeaderV02,
    header::bah_camt_106_001_02::BusinessApplicationHeaderV02,
    header::bah_camt_106_001_02_mc::BusinessApplicationHeaderV02,
    header::bah_camt_107_001_01::BusinessApplicationHeaderV02,
    header::bah_camt_108_001_01::BusinessApplicationHeaderV02,
    header::bah_camt_109_001_01::BusinessApplicationHeaderV02,
    header::bah_pacs_002_001_10::BusinessApplicationHeaderV02,
    header::bah_pacs_003_001_08::BusinessApplicationHeaderV02,
    header::bah_pacs_004_001_09::BusinessApplicationHeaderV02,
    header::bah_pacs_008_001_08::BusinessApplicationHeaderV02,
    header::bah_pacs_008_001_08_stp::BusinessApplicationHeaderV02,
    header::bah_pacs_009_001_08::BusinessApplicationHeaderV02,
    header::bah_pacs_009_001_08_adv::BusinessApplicationHeaderV02,
    header::bah_pacs_009_001_08_cov::BusinessApplicationHeaderV02,
    header::bah_pacs_010_001_03::BusinessApplicationHeaderV02,
    header::bah_pacs_010_001_03_mc::BusinessApplicationHeaderV02,
    header::bah_pain_001_001_09::BusinessApplicationHeaderV02,
    header::bah_pain_002_001_10::BusinessApplicationHeaderV02,
    header::bah_pain_008_001_08::BusinessApplicationHeaderV02,
}
pub fn module(s: &'static Schema, t: &Typed) -> &'static Module {
    if t.header { s.hdr(t.module) } else { s.doc(t.module) }
}
/// (index in TYPED, path)
fn paths(s: &'static Schema) -> Vec<(usize, Vec<usize>)> {
    let mut v = vec![];
    for (i, t) in TYPED.iter().enumerate() {
        v.extend(module(s, t).all_paths().into_iter().map(|p| (i, p)));
    }
    v
}
/// sites satisfying `pick`
fn sites(s: &'static Schema, pick: impl Fn(&Field, &Module) -> bool) -> Vec<(usize, Vec<usize>)> {
    paths(s).into_iter().filter(|(t, p)| pick(module(s, &TYPED[*t]).field_at(p), module(s, &TYPED[*t]))).collect()
}
/// a value of the type holding the element at `path`
pub fn value(c: &mut Case, m: &'static Module, path: &[usize], cfg: &Cfg) -> Node {
    let mut cfg = cfg.clone();
    cfg.dict = Some(c.run.dict);
    Gen::new(c.run.s, m, crate::rng::Rng::new(c.rng.next()), cfg).message(path)
}
fn no_cr(m: &Module, n: &mut Node) {
    n.walk_mut(m, &mut |_, x| {
        if let Body::Str(s) = &mut x.body {
            if s.contains('\r') {
                *s = s.replace('\r', " ");
                *s = s.trim().to_string();
            }
        }
    });
}
fn xml(m: &Module, n: &Node, st: XmlStyle) -> String {
    let mut w = XmlW::new(st);
    w.elem(m, "R", n, 0, "");
    w.out
}

// C27 -----------------------------------------------------------------
pub fn c27(run: &Run) {
    run.rule("case = one value of one of the 31 document types or 31 header types (every element path of each type present once per round; plus every code of every code list, every list path with two to six entries, numbers of up to 15 digits at every numeric path; plus one mandatory element removed, one coded element broken, or every code list against all codes of other lists), used directly through serde; monitored: JSON and XML are read and written exactly, with an independent XML reader and writer, reading the written XML gives an equal value, incomplete or malformed values are refused; non-trivial = distinct (type, path, content)");
    let all = paths(run.s);
    run.counter("typed_paths", all.len() as u64);
    let sound = |c: &mut Case, t: &Typed, m: &'static Module, n: &Node, name: &str| {
        let j = to_json(m, n);
        c.eval(format!("{name}|{j}").as_bytes());
        match (t.j2x)(&j.to_string()) {
            Err(e) => return c.fail(&format!("C27|refused|{name}"), json!({"error": e, "json": clip(&j.to_string(), 4000)})),
            Ok((x, out, back)) => {
                if let Some(d) = json_diff(&j, &out, "") {
                    return c.fail(&format!("C27|JSON differs|{name}"), json!({"difference": d, "json": clip(&j.to_string(), 4000)}));
                }
                let at = xmlp::parse(&x).and_then(|e| if e.name == "R" { xmlp::matches(m, n, &e, "") } else { Err("root".into()) });
                if let Err(d) = at {
                    return c.fail(&format!("C27|XML differs|{name}"), json!({"difference": d, "xml": clip(&x, 6000)}));
                }
                match back {
                    Ok(true) => {}
                    Ok(false) => return c.fail(&format!("C27|XML round trip differs|{name}"), json!({"xml": clip(&x, 6000)})),
                    Err(e) => return c.fail(&format!("C27|written XML refused|{name}"), json!({"error": e, "xml": clip(&x, 6000)})),
                }
            }
        }
        let st = if c.rng.chance(0.5) { XmlStyle::default() } else { XmlStyle::random(&mut c.rng) };
        let x = xml(m, n, st);
        match (t.x2j)(&x) {
            Err(e) => c.fail(&format!("C27|XML refused|{name}"), json!({"error": e, "xml": clip(&x, 6000)})),
            Ok(v) => {
                if let Some(d) = json_diff(&j, &v, "") {
                    c.fail(&format!("C27|reading XML differs|{name}"), json!({"difference": d, "xml": clip(&x, 6000)}));
                }
            }
        }
        c.count("elements", n.count() as u64);
        c.sample(|| json!({"type": name, "xml": clip(&x, 500)}));
    };
    // codes
    let mut codes: Vec<(usize, Vec<usize>, String)> = vec![];
    for (ti, t) in TYPED.iter().enumerate() {
        let m = module(run.s, t);
        let mut by: std::collections::BTreeMap<usize, Vec<Vec<usize>>> = Default::default();
        for p in m.all_paths() {
            if let Ty::Ref(e) = m.field_at(&p).ty {
                if m.is_enum(e) {
                    by.entry(e).or_default().push(p);
                }
            }
        }
        for (e, ps) in by {
            if let Kind::Enum(vs) = &m.types[e].kind {
                for (i, v) in vs.iter().enumerate() {
                    codes.push((ti, ps[i % ps.len()].clone(), v.clone()));
                }
            }
        }
    }
    let mut clists: std::collections::BTreeMap<(usize, usize), Vec<Vec<usize>>> = Default::default();
    for (ti, p, _) in &codes {
        if let Ty::Ref(e) = module(run.s, &TYPED[*ti]).field_at(p).ty {
            clists.entry((*ti, e)).or_default().push(p.clone());
        }
    }
    let clists: Vec<_> = clists.into_iter().map(|((t, e), p)| (t, e, p)).collect();
    let lists = sites(run.s, |f, _| matches!(f.card, Card::Vec | Card::OptVec));
    let nums = sites(run.s, |f, _| f.ty == Ty::Prim(Prim::Num));
    // one path to every plain element of every group
    let mut seen = std::collections::HashSet::new();
    let plain: Vec<_> = sites(run.s, |f, _| matches!(f.ty, Ty::Prim(_))).into_iter().filter(|(t, p)| seen.insert((*t, module(run.s, &TYPED[*t]).field_at(p) as *const Field))).collect();
    run.counter("plain_element_sites", plain.len() as u64);
    let miss = sites(run.s, |f, _| is_mandatory(f));
    let coded = sites(run.s, |f, m| match f.ty { Ty::Ref(t) => m.is_enum(t), Ty::Prim(p) => p != Prim::Str });
    run.counter("codes", codes.len() as u64);
    run.counter("mandatory_sites", miss.len() as u64);
    run.counter("typed_scalar_sites", coded.len() as u64);
    run.rounds(|_| {
        run.par("path", all.len() as u64, |c| {
            let (ti, p) = &all[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:{}", t.module, m.names(p));
            c.saw("paths", name.as_bytes());
            c.saw("types", t.module.as_bytes());
            let mut cfg = crate::p_codec::vary_lax(c);
            if c.rng.chance(0.15) {
                cfg.text = Text::Hostile;
            }
            let mut n = value(c, m, p, &cfg);
            no_cr(m, &mut n);
            sound(c, t, m, &n, &name);
        });
        // values with a meaning of their own (defaults, placeholders, switches) are there all the same
        run.par("usual", 4 * plain.len() as u64, |c| {
            let (ti, p) = &plain[c.idx as usize % plain.len()];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:usual:{}", t.module, m.names(p));
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1]), budget: 30, text: Text::Usual, lax: c.rng.chance(0.5), ..Cfg::default() };
            let n = value(c, m, p, &cfg);
            c.saw("usual_values", to_json(m, n.at(p).unwrap()).to_string().as_bytes());
            sound(c, t, m, &n, &name);
        });
        // elements that hold nothing are there all the same
        run.par("empty", all.len() as u64, |c| {
            let (ti, p) = &all[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:empty:{}", t.module, m.names(p));
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1]), budget: 40, text: Text::Blank, ..Cfg::default() };
            let mut n = value(c, m, p, &cfg);
            n.walk_mut(m, &mut |_, x| {
                if let Body::Str(s) = &mut x.body {
                    if s.trim() != s {
                        s.clear();
                    }
                    s.retain(|c| c != '\r');
                }
            });
            sound(c, t, m, &n, &name);
        });
        run.par("code", codes.len() as u64, |c| {
            let (ti, p, v) = &codes[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:{}={v}", t.module, m.names(p));
            let mut n = value(c, m, p, &Cfg { p_opt: 0.05, budget: 30, ..Cfg::default() });
            n.at_mut(p).unwrap().body = Body::Enum(v.clone());
            c.saw("codes", name.as_bytes());
            sound(c, t, m, &n, &name);
        });
        run.par("repeated", lists.len() as u64, |c| {
            let (ti, p) = &lists[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:{}", t.module, m.names(p));
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1, 0.3]), budget: 60, ..Cfg::default() };
            let (mut n, other) = (value(c, m, p, &cfg), value(c, m, p, &cfg));
            let kinds = crate::p_codec::repeat_with(p, &mut n, other, &mut c.rng);
            c.saw("repetition_patterns", kinds.as_bytes());
            sound(c, t, m, &n, &name);
        });
        run.par("number", nums.len() as u64, |c| {
            let (ti, p) = &nums[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:{}", t.module, m.names(p));
            let mut n = value(c, m, p, &Cfg { p_opt: 0.0, budget: 20, ..Cfg::default() });
            for _ in 0..3 {
                let lex = crate::p_codec::lexical(c);
                c.saw("numbers", lex.as_bytes());
                n.at_mut(p).unwrap().body = Body::Num(lex);
                sound(c, t, m, &n, &name);
            }
        });
        run.par("code lists", clists.len() as u64, |c| {
            let (ti, e, ps) = &clists[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let p = c.rng.pick(ps).clone();
            let name = format!("{}:{}", t.module, m.names(&p));
            let Kind::Enum(vals) = &m.types[*e].kind else { unreachable!() };
            let mut n = value(c, m, &p, &Cfg { p_opt: 0.0, budget: 20, ..Cfg::default() });
            if (t.x2j)(&xml(m, &n, XmlStyle::default())).is_err() || (t.j2x)(&to_json(m, &n).to_string()).is_err() {
                return c.fail(&format!("C27|intact value refused|{name}"), json!({}));
            }
            c.saw("code_lists", name.as_bytes());
            for bad in crate::p_reject::foreign_codes(c.run.s, c.run.dict, vals) {
                n.at_mut(&p).unwrap().body = Body::Enum(bad.clone());
                let (x, j) = (xml(m, &n, XmlStyle::default()), to_json(m, &n));
                c.eval(format!("{name}|{bad}|list").as_bytes());
                if (t.x2j)(&x).is_ok() {
                    c.fail(&format!("C27|code of no list accepted in XML|{name}"), json!({"value": bad, "xml": clip(&x, 4000)}));
                }
                if (t.j2x)(&j.to_string()).is_ok() {
                    c.fail(&format!("C27|code of no list accepted in JSON|{name}"), json!({"value": bad, "json": clip(&j.to_string(), 4000)}));
                }
            }
        });
        run.par("missing", miss.len() as u64, |c| {
            let (ti, p) = &miss[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:{}", t.module, m.names(p));
            let mut n = value(c, m, p, &Cfg { p_opt: 0.05, budget: 30, ..Cfg::default() });
            if (t.x2j)(&xml(m, &n, XmlStyle::default())).is_err() {
                return c.fail(&format!("C27|intact value refused|{name}"), json!({}));
            }
            n.slot_mut(p).unwrap().occ.clear();
            let (x, j) = (xml(m, &n, XmlStyle::default()), to_json(m, &n));
            c.eval(x.as_bytes());
            if (t.x2j)(&x).is_ok() {
                c.fail(&format!("C27|incomplete XML accepted|{name}"), json!({"xml": clip(&x, 4000)}));
            }
            if (t.j2x)(&j.to_string()).is_ok() {
                c.fail(&format!("C27|incomplete JSON accepted|{name}"), json!({"json": clip(&j.to_string(), 4000)}));
            }
        });
        run.par("malformed", coded.len() as u64, |c| {
            let (ti, p) = &coded[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:{}", t.module, m.names(p));
            let mut n = value(c, m, p, &Cfg { p_opt: 0.05, budget: 30, ..Cfg::default() });
            let good = scalar(n.at(p).unwrap());
            let bad = match c.rng.below(5) {
                0 => "ZZZZ".to_string(),
                1 => format!("{good}X"),
                2 => format!("x{good}"),
                3 => "no such".to_string(),
                _ => "1-2".to_string(),
            };
            // a code list may contain the altered code
            if let Ty::Ref(e) = m.field_at(p).ty {
                if let Kind::Enum(vs) = &m.types[e].kind {
                    if vs.contains(&bad) {
                        return;
                    }
                }
            }
            n.at_mut(p).unwrap().body = Body::Str(bad.clone());
            let (x, j) = (xml(m, &n, XmlStyle::default()), to_json(m, &n));
            c.eval(x.as_bytes());
            if (t.x2j)(&x).is_ok() {
                c.fail(&format!("C27|bad value accepted in XML|{name}"), json!({"value": bad, "xml": clip(&x, 4000)}));
            }
            if (t.j2x)(&j.to_string()).is_ok() {
                c.fail(&format!("C27|bad value accepted in JSON|{name}"), json!({"value": bad, "json": clip(&j.to_string(), 4000)}));
            }
        });
    });
}

// C28 -----------------------------------------------------------------
/// the reports on a value are exactly those the constraints demand
fn exact(c: &mut Case, t: &Typed, m: &Module, n: &Node, name: &str, b: &str) {
    let mut want = vec![];
    let root = *c.rng.pick(&["", "Document", "a.b"]);
    expected_errors(c.run.s, m, n, root, true, &mut want);
    let j = to_json(m, n);
    if b.is_empty() { c.eval(format!("{name}|{j}").as_bytes()) } else { c.eval(format!("{name}|{b}|{root}").as_bytes()) };
    match (t.check)(&j, root, &ParserConfig::default()) {
        Err(e) => c.fail(&format!("C28|not built|{name}"), json!({"error": e})),
        Ok(mut got) => {
            got.sort();
            want.sort();
            if got != want {
                let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).take(3).collect();
                let lost: Vec<_> = want.iter().filter(|g| !got.contains(g)).take(3).collect();
                let at = extra.first().or(lost.first()).map(|x| x.1.clone()).unwrap_or_default();
                let value = j.pointer(&format!("/{}", at.trim_start_matches(root).trim_start_matches('.').replace('.', "/"))).cloned();
                c.fail(&format!("C28|reports differ|{name}"), json!({"unexpected": format!("{extra:?}"), "missing": format!("{lost:?}"), "expected_count": want.len(), "reported": got.len(), "value": value.map_or(clip(b, 80), |v| clip(&v.to_string(), 200)), "json": clip(&j.to_string(), 3000)}));
            }
            c.count("reports_compared", want.len() as u64);
        }
    }
}
pub fn c28(run: &Run) {
    run.rule("case = one value of one of the 31 document types or 31 header types validated directly, with 0, 1 or many constraints broken (every constrained path of every type broken once per round, on both sides of its bounds); monitored: the reports are exactly those the constraints demand; non-trivial = distinct (type, path, content)");
    let cons = sites(run.s, |f, _| f.len.is_some() || f.pattern.is_some());
    run.counter("constrained_sites", cons.len() as u64);
    // every constrained element of every group, with the paths that lead to it
    let mut by_field: std::collections::BTreeMap<(usize, usize), Vec<&Vec<usize>>> = Default::default();
    for (t, p) in &cons {
        by_field.entry((*t, module(run.s, &TYPED[*t]).field_at(p) as *const Field as usize)).or_default().push(p);
    }
    let fields: Vec<(usize, Vec<&Vec<usize>>)> = by_field.into_iter().map(|(k, v)| (k.0, v)).collect();
    // every list, with the constrained texts below it
    let mut by_list: std::collections::BTreeMap<(usize, usize), Vec<(&Vec<usize>, usize)>> = Default::default();
    for (t, p) in &cons {
        let m = module(run.s, &TYPED[*t]);
        for k in 1..=p.len() {
            let f = m.field_at(&p[..k]);
            if matches!(f.card, Card::Vec | Card::OptVec) {
                by_list.entry((*t, f as *const Field as usize)).or_default().push((p, k));
            }
        }
    }
    let lists: Vec<(usize, Vec<(&Vec<usize>, usize)>)> = by_list.into_iter().map(|(k, v)| (k.0, v)).collect();
    run.counter("lists_with_constrained_texts", lists.len() as u64);
    run.counter("constrained_elements_of_groups", fields.len() as u64);
    run.rounds(|_| {
        run.par("near", 4 * fields.len() as u64, |c| {
            let (ti, ps) = &fields[c.idx as usize % fields.len()];
            let p = *c.rng.pick(ps);
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.05, 0.2, 0.5]), budget: 150, forced_rep: *c.rng.pick(&[1, 2, 4]), text: Text::Boundary, ..Cfg::default() };
            let mut n = value(c, m, p, &cfg);
            let keep = *c.rng.pick(&[0.0, 0.3, 0.8]);
            let mut r = c.rng.clone();
            let mut sites = 0;
            n.walk_mut(m, &mut |f, x| {
                if matches!(x.body, Body::Str(_)) && (f.len.is_some() || f.pattern.is_some()) && !r.chance(keep) {
                    x.body = Body::Str(crate::p_valid::probe(c.run.s, f, &mut r, c.run.dict));
                    sites += 1;
                }
            });
            n.at_mut(p).unwrap().body = Body::Str(crate::p_valid::probe(c.run.s, m.field_at(p), &mut r, c.run.dict));
            c.rng = r;
            c.count("values_near_their_bounds", sites + 1);
            let name = format!("{}:{}", t.module, m.names(p));
            exact(c, t, m, &n, &name, "");
            c.saw("groups_probed", name.as_bytes());
        });
        run.par("long lists", lists.len() as u64, |c| {
            let (ti, sites) = &lists[c.idx as usize];
            let (p, k) = *c.rng.pick(sites);
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.05]), budget: 40, text: Text::Valid, ..Cfg::default() };
            let good = value(c, m, p, &cfg);
            let mut n = good.clone();
            let Some((bad, _)) = crate::p_valid::violating(c.run.s, m.field_at(p), &mut c.rng, c.run.dict) else { return };
            n.at_mut(p).unwrap().body = Body::Str(bad);
            let (bad, good) = (n.at(&p[..k]).unwrap().clone(), good.at(&p[..k]).unwrap().clone());
            let sizes = c.run.dict.sizes(120);
            let len = if !sizes.is_empty() && c.rng.chance(0.5) { *c.rng.pick(&sizes) + c.rng.below(2) } else { *c.rng.pick(&[9, 10, 11, 12, 16, 17, 20, 33, 51, 65, 101]) };
            let all = c.rng.chance(0.5);
            n.slot_mut(&p[..k]).unwrap().occ = (0..len).map(|i| if all || i + 1 == len || c.rng.chance(0.3) { bad.clone() } else { good.clone() }).collect();
            let name = format!("{}:{}", t.module, m.names(p));
            c.count("entries_of_long_lists", len as u64);
            exact(c, t, m, &n, &name, "");
        });
        run.par("edges", fields.len() as u64, |c| {
            let (ti, ps) = &fields[c.idx as usize % fields.len()];
            let p = *ps.iter().min_by_key(|p| p.len()).unwrap();
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let cfg = Cfg { p_opt: 0.0, budget: 60, text: Text::Boundary, ..Cfg::default() };
            let mut n = value(c, m, p, &cfg);
            let name = format!("{}:{}", t.module, m.names(p));
            let vals = crate::p_valid::dense(c.run.s, m.field_at(p), c.run.dict);
            for v in vals {
                n.at_mut(p).unwrap().body = Body::Str(v.clone());
                exact(c, t, m, &n, &name, &v);
                c.count("values_at_the_edges", 1);
                if c.failed() {
                    return;
                }
            }
        });
        run.par("constraint", cons.len() as u64, |c| {
            let (ti, p) = &cons[c.idx as usize];
            let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
            let name = format!("{}:{}", t.module, m.names(p));
            c.saw("constrained_paths", name.as_bytes());
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.1]), budget: 60, forced_rep: *c.rng.pick(&[1, 1, 2, 3]), text: Text::Boundary, ..Cfg::default() };
            let mut n = value(c, m, p, &cfg);
            let f = m.field_at(p);
            let mut bads: Vec<String> = vec![];
            if let Some((lo, hi)) = f.len {
                if let Some(h) = hi {
                    bads.push("é".repeat(h + 1));
                    bads.push("A".repeat(h + 1));
                    bads.push("A".repeat(h));
                }
                if lo.is_some_and(|l| l > 0) {
                    bads.push(String::new());
                    bads.push("A".repeat(lo.unwrap()));
                }
            }
            if f.pattern.is_some() {
                bads.extend(["?".to_string(), "a b".into(), "é".into(), format!("{}!", scalar(n.at(p).unwrap())), format!("!{}", scalar(n.at(p).unwrap()))]);
            }
            let keep = n.clone();
            for b in bads {
                n = keep.clone();
                if c.rng.chance(0.3) {
                    // every occurrence of the last list on the way
                    let b2 = b.clone();
                    let k = f.xml.clone();
                    n.walk_mut(m, &mut |fl, x| {
                        if fl.xml == k && matches!(x.body, Body::Str(_)) {
                            x.body = Body::Str(b2.clone());
                        }
                    });
                }
                n.at_mut(p).unwrap().body = Body::Str(b.clone());
                exact(c, t, m, &n, &name, &b);
            }
            c.sample(|| json!({"path": name}));
        })
    });
}

/// the options of the validation on every constrained element of every group of the 62 types, on the way to it
/// that passes the fewest optional groups and on any way
pub fn c12_types(run: &Run) {
    let cons = sites(run.s, |f, _| f.len.is_some() || f.pattern.is_some());
    let mut by_field: std::collections::BTreeMap<(usize, usize), Vec<&Vec<usize>>> = Default::default();
    for (t, p) in &cons {
        by_field.entry((*t, module(run.s, &TYPED[*t]).field_at(p) as *const Field as usize)).or_default().push(p);
    }
    let fields: Vec<(usize, Vec<&Vec<usize>>)> = by_field.into_iter().map(|(k, v)| (k.0, v)).collect();
    run.par("type", 2 * fields.len() as u64, |c| {
        let (ti, ps) = &fields[c.idx as usize % fields.len()];
        let (t, m) = (&TYPED[*ti], module(c.run.s, &TYPED[*ti]));
        let first = (c.idx as usize) < fields.len();
        let groups = |p: &[usize]| (1..p.len()).filter(|k| m.field_at(&p[..*k]).optional_group).count();
        let p = if first { *ps.iter().min_by_key(|p| (groups(p), p.len())).unwrap() } else { *c.rng.pick(ps) };
        let name = format!("{}:{}", t.module, m.names(p));
        let cfg = Cfg { p_opt: if first { *c.rng.pick(&[0.0, 0.1]) } else { *c.rng.pick(&[0.1, 0.4]) }, budget: 120, forced_rep: *c.rng.pick(&[1, 1, 2, 3]), text: Text::Boundary, ..Cfg::default() };
        let mut n = value(c, m, p, &cfg);
        let mut r = c.rng.clone();
        let more = if first && r.chance(0.5) { 0.0 } else { *r.pick(&[0.1, 0.5]) };
        n.walk_mut(m, &mut |f, x| {
            if matches!(x.body, Body::Str(_)) && (f.len.is_some() || f.pattern.is_some()) && r.chance(more) {
                x.body = Body::Str(crate::p_valid::probe(c.run.s, f, &mut r, c.run.dict));
            }
        });
        if let Some((v, _)) = crate::p_valid::violating(c.run.s, m.field_at(p), &mut r, c.run.dict) {
            n.at_mut(p).unwrap().body = Body::Str(v);
        }
        c.rng = r;
        let j = to_json(m, &n);
        let root = *c.rng.pick(&["", "Document", "a.b"]);
        c.eval(format!("{name}|{root}|{j}").as_bytes());
        c.saw(if groups(p) == 0 { "elements_outside_optional_groups" } else { "elements_inside_optional_groups" }, name.as_bytes());
        let run_ = |cf: &ParserConfig| (t.check)(&j, root, cf);
        let (full, lenient) = match (run_(&ParserConfig::default()), run_(&ParserConfig { validate_optional_fields: false, ..ParserConfig::default() })) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => return c.fail(&format!("C12|not built|{name}"), json!({"error": a.err().or(b.err())})),
        };
        let mut want = vec![];
        expected_errors(c.run.s, m, &n, root, false, &mut want);
        let mut got = lenient.clone();
        (want.sort(), got.sort());
        c.count("errors_outside_optional_groups", want.len() as u64);
        if got != want {
            c.fail(&format!("C12|optional content off|{name}"), json!({"not_reported": want.iter().find(|x| !got.contains(x)), "reported_though_optional": got.iter().find(|x| !want.contains(x)), "json": clip(&j.to_string(), 3000)}));
        }
        for cf in crate::p_valid::configs() {
            let reference = if cf.validate_optional_fields { &full } else { &lenient };
            let want: Vec<_> = if cf.fail_fast { reference.first().cloned().into_iter().collect() } else { reference.clone() };
            c.count("validations", 1);
            let got = run_(&cf).unwrap_or_default();
            if got != want {
                c.fail(&format!("C12|{}|{name}", if cf.fail_fast { "fail_fast" } else { "same options" }), json!({"config": format!("{cf:?}"), "expected": want.iter().take(3).collect::<Vec<_>>(), "got": got.iter().take(3).collect::<Vec<_>>(), "json": clip(&j.to_string(), 3000)}));
            }
        }
    });
}
// C26 -----------------------------------------------------------------
pub fn c26(run: &Run) {
    run.rule("case = one message (every element path of every type, valid or hostile texts, random layouts) given as a Document alone, as a bare message element and as a full envelope to the typed Document reader and to the envelope validator; monitored: the JSON is exactly the document's content under its element name whichever way it came, the validator accepts, MxMessage::from_xml refuses a text without header instead of inventing one, an unknown or a wrong message type is refused; non-trivial = distinct texts");
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("path", sp.paths.len() as u64, |c| {
            let mut cfg = vary(c);
            if c.rng.chance(0.2) {
                cfg.text = Text::Hostile;
            }
            let (mt, g, name) = fresh(c, &sp, &cfg);
            let m = c.run.s.doc(mt.module);
            let st = if c.rng.chance(0.4) { EnvStyle::plain() } else { EnvStyle::random(&mut c.rng, mt.full) };
            let d = document_only(m, mt.tag, &g.doc, &st);
            c.eval(d.as_bytes());
            let want = json!({"Document": {mt.tag: to_json(m, &g.doc)}});
            let bare = {
                let mut w = XmlW::new(st.xml);
                w.out.push_str(st.decl);
                w.elem(m, mt.tag, &g.doc, 0, &st.doc_attr);
                w.out
            };
            let e = envelope(hdr_module(c.run.s), m, mt.tag, &g, &st);
            // any word but the library's own tag names may occur in the bare text, which has no frame to be found by
            let framed = [("Document", &d, true), ("envelope", &e, true), ("element", &bare, c.idx % 4 == 0)];
            for (k, x, go) in framed {
                if !go {
                    continue;
                }
                match mx_message::xml::xml_to_json_via_document(x, mt.short) {
                    Err(er) => c.fail(&format!("C26|{k} refused|{name}"), json!({"error": er.to_string(), "xml": clip(x, 6000)})),
                    Ok(v) => {
                        if let Some(df) = json_diff(&want, &v, "") {
                            c.fail(&format!("C26|{k} differs|{name}"), json!({"difference": df, "xml": clip(x, 6000)}));
                        }
                    }
                }
                if let Err(er) = mx_message::xml::from_mx_xml_envelope_str(x, mt.short) {
                    c.fail(&format!("C26|{k} not valid|{name}"), json!({"error": er.to_string(), "xml": clip(x, 6000)}));
                }
            }
            if MxMessage::from_xml(&d).is_ok() {
                c.fail(&format!("C26|header invented|{name}"), json!({"xml": clip(&d, 4000)}));
            }
            c.sample(|| json!({"message": name, "xml": clip(&d, 400)}));
        });
        run.par("wrong type", (MTS.len() * (MTS.len() + 3) * 2) as u64, |c| {
            let k = c.idx as usize % (MTS.len() * (MTS.len() + 3));
            let (a, b) = (&MTS[k % MTS.len()], k / MTS.len());
            let p = sp.paths.iter().filter(|(t, _)| MTS[*t].short == a.short).count();
            let _ = p;
            let m = c.run.s.doc(a.module);
            let cfg = Cfg { p_opt: *c.rng.pick(&[0.05, 0.5, 0.9]), budget: 800, ..Cfg::default() };
            let n = value(c, m, &[], &cfg);
            let x = document_only(m, a.tag, &n, &EnvStyle::plain());
            let t = match b.checked_sub(MTS.len()) {
                None => MTS[b].short.to_string(),
                Some(0) => String::new(),
                Some(1) => a.tag.to_string(),
                _ => hostile(&mut c.rng),
            };
            if t == a.short {
                return;
            }
            c.eval(format!("{t}|{x}").as_bytes());
            c.saw("type_pairs", format!("{}|{t}", a.short).as_bytes());
            if mx_message::xml::xml_to_json_via_document(&x, &t).is_ok() || mx_message::xml::from_mx_xml_envelope_str(&x, &t).is_ok() {
                let sig = if MTS.iter().any(|m| m.short == t) { format!("C26|a {} Document is read as {t}", a.short) } else { "C26|unknown type accepted".into() };
                c.fail(&sig, json!({"type": t, "xml": clip(&x, 3000)}));
            }
        });
    });
}

// C29 -----------------------------------------------------------------
pub fn c29(run: &Run) {
    run.rule("case = one message whose envelope declares a default namespace and/or an xsi namespace (usual, unusual and hostile values; on the envelope, header or document element; single or double quotes, escapes, other attributes around), read from XML or from JSON; monitored: both declarations are kept exactly through every conversion, absent ones stay absent, the content does not change; non-trivial = distinct declarations and texts");
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("declared", if run.thorough() { 12000 } else { 6000 }, |c| {
            c.idx = c.rng.below(sp.paths.len()) as u64;
            let cfg = Cfg { p_opt: 0.05, budget: 60, text: if c.rng.chance(0.3) { Text::Hostile } else { Text::Valid }, ..Cfg::default() };
            let (mt, g, name) = fresh(c, &sp, &cfg);
            let m = c.run.s.doc(mt.module);
            let val = |c: &mut Case| -> Option<String> {
                let r = &mut c.rng;
                match r.below(7) {
                    0 | 1 => None,
                    2 => Some(format!("{NS}{}", mt.full)),
                    3 => Some("urn:iso:std:iso:20022:tech:xsd:head.001.001.02".into()),
                    4 => Some("http://www.w3.org/2001/XMLSchema-instance".into()),
                    5 => Some(hostile(r).replace(['\n', '\t', '\r'], " ")),
                    _ => Some((*r.pick(&["", "urn:a&b", "x", "urn:\"q\"", "urn:'q'", "<a>", "urn:é中"])).to_string()),
                }
            };
            let (ns, xsi) = (val(c), val(c));
            // through JSON
            let mut j = msg_json(c.run.s, mt, &g);
            if let Some(v) = &ns {
                j["@xmlns"] = json!(v);
            }
            if let Some(v) = &xsi {
                j["@xmlns:xsi"] = json!(v);
            }
            c.eval(j.to_string().as_bytes());
            c.saw("declarations", format!("{ns:?}{xsi:?}").as_bytes());
            let detail = json!({"xmlns": ns, "xmlns:xsi": xsi, "message": name});
            let msg = match MxMessage::from_json(&j.to_string()) {
                Ok(m) => m,
                Err(e) => return c.fail("C29|JSON refused", json!({"error": e.to_string(), "case_": detail})),
            };
            match to_value(&msg) {
                Ok(v) => {
                    if let Some(d) = json_diff(&j, &v, "") {
                        c.fail("C29|JSON round trip", json!({"difference": d, "case_": detail}));
                    }
                }
                Err(e) => c.fail("C29|JSON not written", json!({"error": e, "case_": detail})),
            }
            match msg.to_xml() {
                Err(e) => c.fail("C29|XML not written", json!({"error": e.to_string(), "case_": detail})),
                Ok(x) => {
                    match xmlp::parse(&x) {
                        Err(e) => c.fail("C29|XML not well-formed", json!({"error": e, "case_": detail, "xml": clip(&x, 2000)})),
                        Ok(e) => {
                            let mut want: Vec<(String, String)> = vec![];
                            want.extend(ns.clone().map(|v| ("xmlns".to_string(), v)));
                            want.extend(xsi.clone().map(|v| ("xmlns:xsi".to_string(), v)));
                            let mut got: Vec<(String, String)> = e.attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                            got.sort();
                            want.sort();
                            if got != want {
                                c.fail("C29|XML declares something else", json!({"found": format!("{got:?}"), "case_": detail, "xml": clip(&x, 1500)}));
                            }
                        }
                    }
                    match MxMessage::from_xml(&x) {
                        Ok(n) if n == msg => {}
                        Ok(n) => c.fail("C29|XML round trip", json!({"difference": to_value(&n).ok().and_then(|v| json_diff(&j, &v, "")), "case_": detail, "xml": clip(&x, 2000)})),
                        Err(e) => c.fail("C29|written XML refused", json!({"error": e.to_string(), "case_": detail, "xml": clip(&x, 2000)})),
                    }
                }
            }
            // from XML written independently
            let mut at = [String::new(), String::new(), String::new()];
            for (k, v) in [("xmlns", &ns), ("xmlns:xsi", &xsi)] {
                if let Some(v) = v {
                    let mut e = String::new();
                    esc(v, &mut e);
                    let q = if c.rng.chance(0.3) { '\'' } else { '"' };
                    let place = if c.rng.chance(0.7) { 0 } else { c.rng.below(3) };
                    let other = if c.rng.chance(0.3) { " other=\"xmlns=&quot;no&quot;\"" } else { "" };
                    at[place].push_str(&format!("{}{k}{}={}{q}{e}{q}", if at[place].contains("other=") { " " } else { *c.rng.pick(&[" ", "\n  "]) }, c.rng.pick(&["", "", " "]), c.rng.pick(&["", "", " "])));
                    if !at[place].contains("other=") {
                        at[place].push_str(other);
                    }
                }
            }
            let [a, b, d] = at;
            let st = EnvStyle { root_attr: a, hdr_attr: b, doc_attr: d, decl: *c.rng.pick(DECLS), ..EnvStyle::plain() };
            let x = envelope(hdr_module(c.run.s), m, mt.tag, &g, &st);
            match MxMessage::from_xml(&x) {
                Err(e) => c.fail("C29|XML refused", json!({"error": e.to_string(), "case_": detail, "xml": clip(&x, 3000)})),
                Ok(n) => {
                    if n.xmlns != ns || n.xmlns_xsi != xsi {
                        c.fail("C29|declarations not read", json!({"read": format!("{:?} {:?}", n.xmlns, n.xmlns_xsi), "case_": detail, "xml": clip(&x, 1500)}));
                    }
                    if n != msg {
                        c.fail("C29|content changed", json!({"case_": detail, "xml": clip(&x, 3000)}));
                    }
                }
            }
            c.sample(|| json!({"declarations": detail, "xml": clip(&x, 300)}));
        })
    });
}

// C30 -----------------------------------------------------------------
#[allow(clippy::too_many_arguments)]
/// what the variant's value looks like to the base type: pieces the base cannot hold, reasons it has to refuse
fn project(vm: &Module, vn: &Node, bm: &Module, bt: Ty, at: &str, dropped: &mut Vec<String>, refuse: &mut Vec<String>, shape: &mut bool) -> Value {
    match (&vn.body, bt) {
        (Body::Struct(slots), Ty::Ref(b)) => {
            let Ty::Ref(v) = vn.ty else { unreachable!() };
            let bf = bm.fields(b);
            let mut o = serde_json::Map::new();
            for sl in slots {
                let f = &vm.fields(v)[sl.field];
                if sl.occ.is_empty() {
                    continue;
                }
                let p = if at.is_empty() { f.xml.clone() } else { format!("{at}.{}", f.xml) };
                let Some(g) = bf.iter().find(|g| g.xml == f.xml) else {
                    dropped.push(p);
                    continue;
                };
                let vs: Vec<Value> = sl.occ.iter().map(|x| project(vm, x, bm, g.ty, &p, dropped, refuse, shape)).collect();
                // a list in one definition and a single element in the other: another JSON form
                *shape |= matches!(g.card, Card::Vec | Card::OptVec) != matches!(f.card, Card::Vec | Card::OptVec);
                match g.card {
                    Card::Vec | Card::OptVec => {
                        o.insert(f.xml.clone(), Value::Array(vs));
                    }
                    _ if vs.len() == 1 => {
                        o.insert(f.xml.clone(), vs.into_iter().next().unwrap());
                    }
                    _ => refuse.push(format!("{p}: {} occurrences", vs.len())),
                }
            }
            for g in bf {
                if is_mandatory(g) && !o.contains_key(&g.xml) {
                    refuse.push(format!("{at}.{}: mandatory", g.xml));
                }
            }
            Value::Object(o)
        }
        (Body::Enum(x) | Body::Str(x), Ty::Ref(b)) => {
            if let Kind::Enum(vs) = &bm.types[b].kind {
                if !vs.contains(x) {
                    refuse.push(format!("{at}: code {x}"));
                }
            }
            json!(x)
        }
        _ => match &vn.body {
            Body::Enum(x) | Body::Str(x) => json!(x),
            Body::Num(x) => json_num(x),
            Body::Bool(x) => json!(x),
            _ => Value::Null,
        },
    }
}
const VARIANTS: &[(&str, &str)] = &[
    ("pacs_008_001_08_stp", "pacs.008"),
    ("pacs_009_001_08_adv", "pacs.009"),
    ("pacs_009_001_08_cov", "pacs.009"),
    ("pacs_010_001_03_mc", "pacs.010"),
    ("camt_105_001_02_mc", "camt.105"),
    ("camt_106_001_02_mc", "camt.106"),
];
pub fn c30(run: &Run) {
    run.rule("case = one message that follows one of the library's usage-variant definitions (6 document variants: STP, COV, ADV, multi-currency...; 31 header definitions), every element path of each once per round, read through the envelope from XML and from JSON; monitored: it is read with all its content or refused - never read with a part silently missing; elements that the library's envelope type does not have are dropped (known findings, one per element); non-trivial = distinct (variant, path, content)");
    let mut all: Vec<(&'static str, bool, Vec<usize>)> = vec![];
    for (v, _) in VARIANTS {
        all.extend(run.s.doc(v).all_paths().into_iter().map(|p| (*v, false, p)));
    }
    for t in TYPED.iter().filter(|t| t.header) {
        all.extend(run.s.hdr(t.module).all_paths().into_iter().map(|p| (t.module, true, p)));
    }
    run.counter("variant_paths", all.len() as u64);
    run.rounds(|_| {
        let full: Vec<(&'static str, bool, Vec<usize>)> = VARIANTS.iter().map(|v| (v.0, false, vec![])).chain(TYPED.iter().filter(|t| t.header).map(|t| (t.module, true, vec![]))).collect();
        // every path once; then the messages with everything in them
        run.par("path", (all.len() + 2 * full.len()) as u64, |c| {
            let k = c.idx as usize;
            let (vm, hdr, p) = if k < all.len() { &all[k] } else { &full[(k - all.len()) % full.len()] };
            let mut cfg = Cfg { p_opt: *c.rng.pick(&[0.0, 0.05, 0.2]), budget: 100, forced_rep: *c.rng.pick(&[1, 1, 2]), ..Cfg::default() };
            if k >= all.len() {
                cfg = Cfg { p_opt: 1.0, budget: 3000, max_rep: 1, ..Cfg::default() };
            }
            let s = c.run.s;
            let h = hdr_module(s);
            let (mt, vmod, bmod) = if *hdr {
                // the message type the header definition is named for
                let n = vm.trim_start_matches("bah_");
                let mt = MTS.iter().find(|m| n.starts_with(&m.short.replace('.', "_"))).unwrap();
                (mt, s.hdr(vm), h)
            } else {
                let b = VARIANTS.iter().find(|x| x.0 == *vm).unwrap().1;
                let mt = MTS.iter().find(|m| m.short == b).unwrap();
                (mt, s.doc(vm), s.doc(mt.module))
            };
            if c.rng.chance(0.1) {
                cfg.text = Text::Usual;
            }
            let mut vn = value(c, vmod, p, &cfg);
            let p_opt = *c.rng.pick(&[0.02, 0.02, 0.3]);
            let mut base = message(s, mt, &[], &[], &mut c.rng, &Cfg { p_opt, budget: 40, ..Cfg::default() }, None);
            // the services that go with the variants
            if c.rng.chance(0.6) {
                let of = ["swift.cbprplus", "cbprplus", "swift"][c.rng.below(3)];
                let kind = *c.rng.pick(&["", ".stp", ".cov", ".adv", ".mlp", ".mc", ".STP", ".core"]);
                let service = format!("{of}{kind}.0{}", 1 + c.rng.below(4));
                c.saw("services", service.as_bytes());
                if *hdr {
                    set_text(vmod, &mut vn, "BizSvc", &service);
                } else {
                    set_text(h, &mut base.hdr, "BizSvc", &service);
                }
            }
            if *hdr {
                set_text(vmod, &mut vn, "MsgDefIdr", mt.full);
            }
            let name = format!("{vm}:{}", vmod.names(p));
            c.saw("paths", name.as_bytes());
            let (mut dropped, mut refuse, mut shape) = (vec![], vec![], false);
            let part = project(vmod, &vn, bmod, Ty::Ref(bmod.root), "", &mut dropped, &mut refuse, &mut shape);
            let whole = to_json(vmod, &vn);
            let (hj, dj) = if *hdr { (part, to_json(s.doc(mt.module), &base.doc)) } else { (to_json(h, &base.hdr), part) };
            let want = json!({"AppHdr": hj, "Document": {mt.tag: dj}});
            let (wh, wd) = if *hdr { (whole, want["Document"][mt.tag].clone()) } else { (want["AppHdr"].clone(), whole) };
            let src = json!({"AppHdr": wh, "Document": {mt.tag: wd}});
            let x = {
                let mut w = XmlW::new(XmlStyle::default());
                w.out.push_str("<Envelope>");
                if *hdr { w.elem(vmod, "AppHdr", &vn, 1, "") } else { w.elem(h, "AppHdr", &base.hdr, 1, "") }
                w.out.push_str("<Document>");
                if *hdr { w.elem(s.doc(mt.module), mt.tag, &base.doc, 2, "") } else { w.elem(vmod, mt.tag, &vn, 2, "") }
                w.out.push_str("</Document></Envelope>");
                w.out
            };
            c.eval(x.as_bytes());
            dropped.sort();
            dropped.dedup();
            for (how, r) in [("XML", MxMessage::from_xml(&x)), ("JSON", MxMessage::from_json(&src.to_string()))] {
                match r {
                    Err(e) => {
                        if refuse.is_empty() && dropped.is_empty() && !(shape && how == "JSON") {
                            c.fail(&format!("C30|{how} refused|{name}"), json!({"error": e.to_string(), "xml": clip(&x, 6000)}));
                        }
                        c.count("variant_messages_refused", 1);
                    }
                    Ok(m) => {
                        c.count("variant_messages_read", 1);
                        if !refuse.is_empty() && how == "XML" {
                            c.fail(&format!("C30|{how} accepted|{name}"), json!({"reasons": refuse, "xml": clip(&x, 6000)}));
                            continue;
                        }
                        let v = to_value(&m).unwrap_or_default();
                        if let Some(d) = json_diff(&want, &v, "") {
                            c.fail(&format!("C30|{how} differs|{name}"), json!({"difference": d, "xml": clip(&x, 6000)}));
                        } else {
                            for k in &dropped {
                                c.fail(&format!("C30|dropped|{vm}:{k}"), json!({"xml": clip(&x, 6000)}));
                            }
                        }
                    }
                }
            }
            c.sample(|| json!({"variant": name, "xml": clip(&x, 400)}));
        })
    });
}

// C31 -----------------------------------------------------------------
fn untyped(m: &Module, n: &Node) -> Value {
    match &n.body {
        Body::Struct(slots) => {
            let Ty::Ref(t) = n.ty else { unreachable!() };
            let mut o = serde_json::Map::new();
            for sl in slots {
                let f = &m.fields(t)[sl.field];
                for x in &sl.occ {
                    if f.xml.starts_with('@') {
                        o.insert(f.xml.clone(), json!(scalar(x)));
                    } else if f.xml == "$value" {
                        o.insert("$text".into(), json!(scalar(x)));
                    } else {
                        o.insert(f.xml.clone(), untyped(m, x));
                    }
                }
            }
            Value::Object(o)
        }
        _ => {
            let s = scalar(n);
            if s.is_empty() { json!({}) } else { json!({"$text": s}) }
        }
    }
}
const ATTRIBUTES: &[&str] = &["id", "Id", "Ccy", "xsi:schemaLocation", "xsi:type", "xsi:nil", "xml:lang", "xml:space", "version", "Type", "type", "lang", "nil", "a", "A", "b.c", "d-e", "_f", "é", "x1"];
const NAMESPACES: &[&str] = &["xmlns", "xmlns:xsi", "xmlns:a", "xmlns:head", "xmlns:doc", "xmlns:xs"];
/// attribute value and how it is written
fn attribute_value(r: &mut crate::rng::Rng) -> (String, String) {
    let v = match r.below(8) {
        0 => String::new(),
        1 => hostile(r).replace(['\n', '\t', '\r'], " "),
        2 => "urn:iso:std:iso:20022:tech:xsd:pacs.008.001.08".to_string(),
        3 => "http://www.w3.org/2001/XMLSchema-instance".to_string(),
        4 => (*r.pick(&["true", "false", "null", "0", "1", "007", "1.0", "-1", "1e5", " x ", "  ", "a  b", "EUR", "eur", "en-GB", "preserve"])).to_string(),
        _ => near("Some Value 12", "@", r).replace(['\n', '\t', '\r'], " "),
    };
    let mut o = String::new();
    esc(&v, &mut o);
    (v, o)
}
fn attributes(r: &mut crate::rng::Rng, names: &[&str], n: usize) -> (String, Vec<(String, String)>) {
    let mut text = String::new();
    let mut all: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let k = *r.pick(names);
        // a prefix is set aside, as it is for elements; a declaration keeps its own
        let l = if k.starts_with("xmlns") { k } else { k.rsplit(':').next().unwrap() };
        if all.iter().any(|a| a.0 == l) {
            continue;
        }
        let (mut v, mut o) = attribute_value(r);
        // a prefix cannot be bound to nothing
        if v.is_empty() && k.starts_with("xmlns") {
            v = "urn:x".into();
            o = "urn:x".into();
        }
        let q = if r.chance(0.3) { '\'' } else { '"' };
        text.push_str(&format!(" {k}={q}{o}{q}"));
        all.push((l.to_string(), v));
    }
    (text, all)
}
fn root_attributes(r: &mut crate::rng::Rng, full: &str) -> (String, Vec<(String, String)>) {
    let n = r.below(4);
    let (mut text, mut all) = attributes(r, NAMESPACES, n);
    let n = r.below(3);
    let (t, a) = attributes(r, ATTRIBUTES, n);
    text.push_str(&t);
    all.extend(a);
    if !all.iter().any(|a| a.0 == "xmlns") && r.chance(0.6) {
        let ns = format!("urn:iso:std:iso:20022:tech:xsd:{full}");
        text.push_str(&format!(" xmlns=\"{ns}\""));
        all.push(("xmlns".into(), ns));
    }
    (text, all)
}
/// any well-formed tree whose siblings have different names, and what it is in JSON
fn any_tree(c: &mut Case, depth: usize, out: &mut String, name: &str) -> Value {
    let n = if c.rng.chance(0.5) { 0 } else { c.rng.below(4) };
    let (t, mut all) = attributes(&mut c.rng, ATTRIBUTES, n);
    let (t2, a2) = if c.rng.chance(0.2) { let n = c.rng.below(3); attributes(&mut c.rng, NAMESPACES, n) } else { (String::new(), vec![]) };
    all.extend(a2);
    out.push_str(&format!("<{name}{t}{t2}"));
    let mut o = serde_json::Map::new();
    for (k, v) in all {
        o.insert(format!("@{k}"), Value::String(v));
    }
    if depth > 0 && c.rng.chance(0.7) {
        out.push('>');
        let mut used: Vec<String> = vec![];
        for _ in 0..1 + c.rng.below(4) {
            let k = (*c.rng.pick(&["A", "a", "AppHdr", "Document", "GrpHdr", "MsgId", "text", "value", "Ccy", "B.c", "D-e", "_f", "é", "X1", "null", "Envelope", "Id", "ID"])).to_string();
            if used.contains(&k) {
                continue;
            }
            if c.rng.chance(0.3) {
                out.push_str(c.rng.pick(&["\n  ", " ", "<!-- <a> -->", "<?x y?>", "\r\n\t", "<!-- -->\n"]));
            }
            let v = any_tree(c, depth - 1, out, &k);
            o.insert(k.clone(), v);
            used.push(k);
        }
        if c.rng.chance(0.3) {
            out.push_str("\n");
        }
        out.push_str(&format!("</{name}>"));
    } else if c.rng.chance(0.15) {
        out.push_str(*c.rng.pick(&["/>", " />", &format!("></{name}>")]));
    } else {
        let v = if c.rng.chance(0.4) { hostile(&mut c.rng) } else { near("Some Text 12", "Text", &mut c.rng) };
        out.push('>');
        if c.rng.chance(0.2) && !v.contains("]]>") && !v.contains('\r') {
            out.push_str(&format!("<![CDATA[{v}]]>"));
        } else {
            esc(&v, out);
        }
        out.push_str(&format!("</{name}>"));
        o.insert("$text".into(), Value::String(v));
    }
    Value::Object(o)
}
pub fn c31(run: &Run) {
    run.rule("case = one message document (every element path of every type; no repeated elements; random layouts and texts) given to the untyped XML-to-JSON conversion; monitored: the JSON holds exactly the elements, attributes and texts of the XML at their places; ill-nested and truncated texts and texts nested beyond 128 levels are refused; repeated elements are kept only once (known finding); non-trivial = distinct texts");
    let sp = Space::new(run.s);
    run.rounds(|_| {
        run.par("path", sp.paths.len() as u64, |c| {
            let mut cfg = crate::p_codec::vary_lax(c);
            cfg.max_rep = 1;
            cfg.forced_rep = 1;
            if c.rng.chance(0.2) {
                cfg.text = Text::Hostile;
            }
            let (mt, g, name) = fresh(c, &sp, &cfg);
            let m = c.run.s.doc(mt.module);
            let mut st = if c.rng.chance(0.4) { EnvStyle::plain() } else { EnvStyle { doc_attr: String::new(), ..EnvStyle::random(&mut c.rng, mt.full) } };
            let mut want = json!({mt.tag: untyped(m, &g.doc)});
            if c.rng.chance(0.5) {
                let (text, a) = root_attributes(&mut c.rng, mt.full);
                st.doc_attr = text;
                for (k, v) in a {
                    want[format!("@{k}")] = Value::String(v);
                }
            }
            let d = document_only(m, mt.tag, &g.doc, &st);
            c.eval(d.as_bytes());
            match mx_message::xml::from_mx_xml_to_json(&d) {
                Err(e) => c.fail(&format!("C31|refused|{name}"), json!({"error": e.to_string(), "xml": clip(&d, 5000)})),
                Ok(v) => {
                    if let Some(df) = json_diff(&want, &v, "") {
                        c.fail(&format!("C31|differs|{name}"), json!({"difference": df, "xml": clip(&d, 5000)}));
                    }
                }
            }
            c.sample(|| json!({"message": name, "xml": clip(&d, 300)}));
            // ill-nested or cut
            if c.idx % 5 == 0 {
                let k = c.rng.below(7);
                let plain = document_only(m, mt.tag, &g.doc, &EnvStyle::plain());
                let bad = match k {
                    0 => {
                        let mut n = 1 + c.rng.below(plain.len() - 2);
                        while !plain.is_char_boundary(n) { n -= 1 }
                        plain[..n.max(1)].to_string()
                    }
                    1 => plain.replacen(&format!("</{}>", mt.tag), "</Wrong>", 1),
                    2 => plain.replacen("</Document>", "", 1),
                    3 => format!("{plain}{}<Document/>", c.rng.pick(&["", "\n", "<!-- x -->"])),
                    4 => format!("{plain}{plain}"),
                    5 => format!("{plain}</Document>"),
                    _ => format!("{plain}{}", c.rng.pick(&["<", "<a", "<!-- x", "<?x", "<a>"])),
                };
                c.eval(bad.as_bytes());
                if let Ok(v) = mx_message::xml::from_mx_xml_to_json(&bad) {
                    c.fail(&format!("C31|ill-formed accepted|{k}"), json!({"xml": clip(&bad, 3000), "json": clip(&v.to_string(), 1000)}));
                }
            }
        });
        run.par("tree", if run.thorough() { 6000 } else { 2000 }, |c| {
            let mut x = String::new();
            let depth = 1 + c.rng.below(6);
            let want = any_tree(c, depth, &mut x, "Root");
            c.eval(x.as_bytes());
            c.saw("free_trees", x.as_bytes());
            match mx_message::xml::from_mx_xml_to_json(&x) {
                Err(e) => c.fail("C31|tree refused", json!({"error": e.to_string(), "xml": clip(&x, 5000)})),
                Ok(v) => {
                    if let Some(df) = json_diff(&want, &v, "") {
                        c.fail("C31|tree differs", json!({"difference": df, "xml": clip(&x, 5000)}));
                    }
                }
            }
        });
        run.par("depth", 160, |c| {
            let d = c.idx as usize + 1;
            let x = format!("{}t{}", "<a>".repeat(d), "</a>".repeat(d));
            c.eval(x.as_bytes());
            let r = mx_message::xml::from_mx_xml_to_json(&x);
            if r.is_ok() != (d <= 128) {
                c.fail("C31|nesting bound", json!({"depth": d, "accepted": r.is_ok()}));
            }
            if let Ok(v) = r {
                let mut k = &v;
                let mut n = 1;
                while let Some(w) = k.get("a") {
                    k = w;
                    n += 1;
                }
                if n != d || k["$text"] != json!("t") {
                    c.fail("C31|nested content", json!({"depth": d, "found": n}));
                }
            }
        });
        run.par("repeated", 60, |c| {
            let n = 2 + c.rng.below(5);
            let x: String = format!("<R><H>1</H>{}</R>", (0..n).map(|i| format!("<I>{i}</I>")).collect::<String>());
            c.eval(format!("{x}{}", c.idx).as_bytes());
            match mx_message::xml::from_mx_xml_to_json(&x) {
                Ok(v) => {
                    let s = v.to_string();
                    if (0..n).all(|i| s.contains(&format!("\"{i}\""))) && v["H"]["$text"] == json!("1") {
                        return;
                    }
                    if v == json!({"H": {"$text": "1"}, "I": {"$text": (n - 1).to_string()}}) {
                        c.fail("C31|of repeated elements only the last is kept", json!({"xml": x, "json": v}));
                    } else {
                        c.fail("C31|repeated elements", json!({"xml": x, "json": v}));
                    }
                }
                Err(e) => c.fail("C31|repeated elements refused", json!({"xml": x, "error": e.to_string()})),
            }
        });
    });
}
