//! C25: results depend on the input alone - not on the thread, the order, the history or the process
use crate::api::*;
use crate::fw::*;
use crate::gen_::*;
use crate::p_codec::vary;
use crate::p_plugin::{engine, json_near};
use crate::p_robust::mutate;
use crate::plug;
use crate::rng::{Rng, hash64};
use crate::schema::Schema;
use dataflow_rs::engine::message::Message;
use mx_message::mx_envelope::{self, MxMessage};
use mx_message::parse_result::ParserConfig;
use mx_message::validation::helpers;
use serde_json::{Value, json};
use std::sync::{Arc, Barrier};

#[derive(Clone)]
pub struct Op {
    kind: &'static str,
    text: String,
    ty: String,
}
/// everything the library says about one input, as text
fn observe(op: &Op, handlers: &plug::Handlers) -> String {
    let msg = |r: Result<MxMessage, mx_message::error::MxError>| -> String {
        match r {
            Err(e) => format!("error {e}"),
            Ok(m) => {
                let mut o = format!("{:?}\n{:?}\n{:?}\n", m.to_xml().map_err(|e| e.to_string()), m.to_json().map_err(|e| e.to_string()), m.namespace().map_err(|e| e.to_string()));
                for (a, b) in [(true, true), (false, true), (true, false), (false, false)] {
                    let cfg = ParserConfig { fail_fast: a, validate_optional_fields: b, ..ParserConfig::default() };
                    for e in run_validate(&m.document, "Document", &cfg) {
                        o.push_str(&format!("{} {:?} {:?} {};", e.code, e.path, e.field, e.message));
                    }
                    o.push('\n');
                }
                o
            }
        }
    };
    match op.kind {
        "xml" => format!("{}|{:?}|{:?}|{:?}", msg(MxMessage::from_xml(&op.text)), mx_envelope::peek_message_type_from_xml(&op.text).map_err(|e| e.to_string()), mx_message::xml::from_mx_xml_envelope_str(&op.text, &op.ty).map_err(|e| e.to_string()), mx_message::xml::from_mx_xml_to_json(&op.text).map(|v| v.to_string()).map_err(|e| e.to_string())),
        "doc" => format!("{:?}", mx_message::xml::xml_to_json_via_document(&op.text, &op.ty).map(|v| v.to_string()).map_err(|e| e.to_string())),
        "json" => format!("{}|{:?}", msg(MxMessage::from_json(&op.text)), mx_envelope::peek_message_type_from_json(&op.text).map_err(|e| e.to_string())),
        // a constraint helper called with constraints of the caller's own
        "check" => {
            let (field, pattern) = op.ty.split_once('\u{1}').unwrap_or(("F", ".*"));
            let n = pattern.len() / 2;
            let mut o = String::new();
            for fail_fast in [false, true] {
                let cfg = ParserConfig { fail_fast, ..ParserConfig::default() };
                let mut c = mx_message::parse_result::ErrorCollector::new();
                let a = helpers::validate_length(&op.text, field, Some(n / 2), Some(n), &format!("Document.{field}"), &cfg, &mut c);
                let b = helpers::validate_pattern(&op.text, field, pattern, &format!("Document.{field}"), &cfg, &mut c);
                o.push_str(&format!("{a} {b} {:?}\n", c.errors().iter().map(|e| format!("{} {:?} {:?} {}", e.code, e.path, e.field, e.message)).collect::<Vec<_>>()));
            }
            o
        }
        f => {
            let data = if f == "publish_mx" { json!({"in": serde_json::from_str::<Value>(&op.text).unwrap_or(Value::Null)}) } else { json!({"in": op.text}) };
            let payload = if f == "generate_mx" { serde_json::from_str::<Value>(&op.text).unwrap_or(Value::Null) } else { Value::Null };
            let mut m = plug::message(data, payload);
            let r = plug::call_with(handlers, f, &mut m, &plug::custom(f, json!({"source": "in", "target": "out"})));
            let r = r.map(|(n, c)| (n, c.iter().map(|c| format!("{} {} {}", c.path, c.old_value, c.new_value)).collect::<Vec<_>>())).map_err(|e| e.to_string());
            let mut ctx = m.context.clone();
            if let Some(o) = ctx.get_mut("metadata").and_then(|x| x.as_object_mut()) {
                o.remove("processed_at");
            }
            // the time of the verdict is no function of the input
            static TIME: std::sync::LazyLock<regex::Regex> = std::sync::LazyLock::new(|| regex::Regex::new(r"20\d\d-\d\d-\d\dT\d\d:\d\d:\d\d\.?\d*\+00:00").unwrap());
            let t = format!("{r:?}|{ctx}");
            if f == "validate_mx" { TIME.replace_all(&t, "now").into_owned() } else { t }
        }
    }
}
/// inputs that are near each other in every way a cache or shared buffer could confuse: same header with another
/// document, same document with another text of the same length, another type, a broken neighbour
pub fn ops(s: &'static Schema, seed: u64, n: usize) -> Vec<Op> {
    let mut r = Rng::new(seed);
    let sp = Space::new(s);
    let mut out = vec![];
    let h = hdr_module(s);
    while out.len() < n {
        // one element name, several constraints of the same length
        for _ in 0..if r.chance(0.6) { 6 } else { 0 } {
            let field = *r.pick(&["Cd", "Cd", "Id", "Nm"]);
            let pattern = *r.pick(&["[0-9]{4,4}", "[A-Z]{4,4}", "[a-z]{4,4}", "[A-Z]{1,4}", "[0-9]{1,4}", "[^ ]{2,20}", "[0-9]+", "[A-Z]+", "A|B|ABCD1", "1234|ABCD"]);
            let text = r.pick(&["1234", "ABCD", "abcd", "A", "7", "AB12", "", "ABCDE", "a b"]).to_string();
            out.push(Op { kind: "check", text, ty: format!("{field}\u{1}{pattern}") });
        }
        let (t, p) = r.pick(&sp.paths).clone();
        let mt = &MTS[t];
        let m = s.doc(mt.module);
        let cfg = Cfg { p_opt: *r.pick(&[0.0, 0.1, 0.3]), budget: 80, text: if r.chance(0.3) { Text::Hostile } else { Text::Boundary }, ..Cfg::default() };
        let a = message(s, mt, &p, &[], &mut r, &cfg, None);
        let mut family = vec![(mt, a.clone())];
        // the same but for one text, changed in place to another of the same length
        let mut b = a.clone();
        let mut k = 0;
        let pick = r.below(12);
        b.doc.walk_mut(m, &mut |f, x| {
            if let Body::Str(v) = &mut x.body {
                if !v.is_empty() && !f.xml.starts_with('@') {
                    if k == pick || k == 0 {
                        *v = v.chars().map(|c| if c == 'A' { 'B' } else if c.is_ascii_alphanumeric() { 'A' } else { c }).collect();
                    }
                    k += 1;
                }
            }
        });
        family.push((mt, b));
        // the same header before another document of the same type, and of another type
        let d2 = message(s, mt, &[], &[], &mut r, &cfg, None);
        family.push((mt, Msg { hdr: a.hdr.clone(), doc: d2.doc }));
        let o = &MTS[r.below(MTS.len())];
        let mut d3 = message(s, o, &[], &[], &mut r, &cfg, None);
        if r.chance(0.5) {
            d3.hdr = a.hdr.clone();
            set_text(h, &mut d3.hdr, "MsgDefIdr", o.full);
        }
        family.push((o, d3));
        for (mt, g) in family {
            let m = s.doc(mt.module);
            let st = if r.chance(0.6) { EnvStyle::plain() } else { EnvStyle::random(&mut r, mt.full) };
            let x = envelope(h, m, mt.tag, &g, &st);
            let d = document_only(m, mt.tag, &g.doc, &st);
            let j = msg_json(s, mt, &g);
            let bad = {
                let mut k = 1 + r.below(x.len() - 1);
                while !x.is_char_boundary(k) {
                    k -= 1
                }
                x[..k].to_string()
            };
            let all = [
                ("xml", x.clone()),
                ("json", j.to_string()),
                ("doc", d.clone()),
                ("parse_mx", x.clone()),
                ("parse_mx", d.clone()),
                ("validate_mx", x.clone()),
                ("validate_mx", bad.clone()),
                ("publish_mx", j.to_string()),
                ("generate_mx", json!({"variables": {"v": 1}, "schema": j}).to_string()),
                ("xml", bad),
                ("doc", x),
            ];
            for (kind, text) in all {
                if r.chance(0.6) {
                    out.push(Op { kind, text, ty: mt.short.to_string() });
                }
            }
        }
    }
    out.truncate(n);
    out
}
pub fn digests(ops: &[Op], order: &[usize], handlers: &plug::Handlers, r: &mut Rng, disturb: bool) -> Vec<(usize, u64)> {
    let mut out = vec![];
    for i in order {
        if disturb {
            match r.below(12) {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(std::time::Duration::from_micros(r.below(200) as u64)),
                _ => {}
            }
        }
        out.push((*i, hash64(observe(&ops[*i], handlers).as_bytes())));
    }
    out
}
pub fn shuffled(n: usize, r: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}
/// child process: digests of the operations given on standard input, in the reverse order
pub fn child() {
    install_panic_hook();
    let o: Vec<(String, String, String)> = serde_json::from_reader(std::io::stdin()).unwrap();
    let o: Vec<Op> = o.into_iter().map(|(kind, text, ty)| Op { kind: Box::leak(kind.into_boxed_str()), text, ty }).collect();
    let order: Vec<usize> = (0..o.len()).rev().collect();
    let mut d = digests(&o, &order, &plug::Handlers::new(), &mut Rng::new(1), false);
    d.sort();
    println!("{}", json!(d.iter().map(|x| x.1.to_string()).collect::<Vec<_>>()));
}
/// runs the child on the operations
fn elsewhere(o: &[Op]) -> std::io::Result<std::process::Output> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let text = json!(o.iter().map(|x| (x.kind, &x.text, &x.ty)).collect::<Vec<_>>()).to_string();
    let mut p = Command::new(std::env::current_exe()?).arg("ops").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
    // the child reads everything before it writes anything
    let sent = p.stdin.take().unwrap().write_all(text.as_bytes());
    let out = p.wait_with_output()?;
    if out.status.success() {
        sent?;
    }
    Ok(out)
}
pub fn c25(run: &Run) {
    run.rule("case = a set of operations (reading, writing, peeking, validating, the constraint helpers, all plugin functions) over messages that differ from one another in one text, in the header, in the document or in one broken place, carried out in order on one thread, then at the same time on 8 threads in 8 random orders with random yields and delays and shared plugin handlers, then again in order, and in a fresh process in reverse order; monitored: every operation gives the same complete result (values, errors, reports, audit entries) each time; a separate stream sends many messages at once through one shared workflow engine; non-trivial = distinct operations");
    run.rounds(|_| {
        run.par_n("threads", if run.thorough() { 60 } else { 16 }, 2, |c| {
            let n = 60;
            let seed = c.rng.next();
            let o = Arc::new(ops(c.run.s, seed, n));
            let hs = Arc::new(plug::Handlers::new());
            let first: Vec<usize> = (0..n).collect();
            let base: Vec<u64> = digests(&o, &first, &hs, &mut Rng::new(1), false).into_iter().map(|x| x.1).collect();
            let wait = Arc::new(Barrier::new(8));
            let ths: Vec<_> = (0..8u64)
                .map(|t| {
                    let (o, hs, wait) = (o.clone(), hs.clone(), wait.clone());
                    let mut r = Rng::new(seed ^ (t + 1));
                    let order = if t == 0 { first.clone() } else { shuffled(n, &mut r) };
                    std::thread::Builder::new()
                        .stack_size(WORKER_STACK)
                        .spawn(move || {
                            wait.wait();
                            let mut d = digests(&o, &order, &hs, &mut r, true);
                            // and the same operation by all threads at once
                            for k in 0..12 {
                                wait.wait();
                                let i = (k * 5 + seed as usize % n) % n;
                                d.extend(digests(&o, &[i], &hs, &mut r, false));
                            }
                            d
                        })
                        .unwrap()
                })
                .collect();
            let mut wrong: Vec<(usize, String)> = vec![];
            for (t, th) in ths.into_iter().enumerate() {
                match th.join() {
                    Err(_) => wrong.push((0, format!("thread {t} panicked: {}", last_panic()))),
                    Ok(d) => {
                        c.count("concurrent_operations", d.len() as u64);
                        wrong.extend(d.into_iter().filter(|(i, h)| base[*i] != *h).map(|(i, _)| (i, format!("concurrently, in thread {t}"))));
                    }
                }
            }
            let again = digests(&o, &first, &hs, &mut Rng::new(1), false);
            wrong.extend(again.into_iter().filter(|(i, h)| base[*i] != *h).map(|(i, _)| (i, "after everything else".to_string())));
            // in a fresh process, in reverse order
            match elsewhere(&o) {
                Ok(p) => match serde_json::from_slice::<Vec<String>>(&p.stdout) {
                    Ok(v) if v.len() == n => {
                        c.count("operations_repeated_in_another_process", n as u64);
                        wrong.extend((0..n).filter(|i| v[*i] != base[*i].to_string()).map(|i| (i, "in a fresh process, in reverse order".to_string())));
                    }
                    _ => {
                        let e = String::from_utf8_lossy(&p.stderr).to_string();
                        c.fail("C25|fresh process failed", json!({"status": format!("{:?}", p.status), "stderr": clip(&e, 1500)}));
                    }
                },
                Err(e) => c.run.inconclusive(&format!("cannot start a process: {e}")),
            }
            for op in o.iter() {
                c.eval(format!("{}|{}|{}", op.kind, op.ty, op.text).as_bytes());
                c.saw("operation_kinds", op.kind.as_bytes());
            }
            if let Some((i, how)) = wrong.first() {
                let op = &o[*i];
                c.fail(&format!("C25|{} gives another result {}", op.kind, how.split(", in thread").next().unwrap()), json!({"how": how, "wrong": wrong.len(), "operation": op.kind, "type": op.ty, "text": clip(&op.text, 4000), "first_result": clip(&observe(op, &hs), 1500)}));
            }
            c.sample(|| json!({"operations": n, "first": clip(&o[0].text, 200)}));
        });
        // 8 threads, each repeating one small operation of the same kind on a message of its own, without pause
        run.par_n("hammer", if run.thorough() { 400 } else { 56 }, 1, |c| {
            let kinds = ["xml", "json", "doc", "parse_mx", "validate_mx", "publish_mx", "generate_mx"];
            let kind = kinds[c.idx as usize % kinds.len()];
            let mut o: Vec<Op> = vec![];
            while o.len() < 8 {
                let mut v = ops(c.run.s, c.rng.next(), 60);
                v.retain(|x| x.kind == kind && x.text.len() < 6000);
                // neighbours in pairs: half of the threads work on near copies of the others' messages
                v.truncate(4);
                o.extend(v);
            }
            o.truncate(8);
            let hs = Arc::new(plug::Handlers::new());
            let base: Vec<u64> = o.iter().map(|x| hash64(observe(x, &hs).as_bytes())).collect();
            let wait = Arc::new(Barrier::new(8));
            let o = Arc::new(o);
            let ths: Vec<_> = (0..8usize)
                .map(|t| {
                    let (o, hs, wait) = (o.clone(), hs.clone(), wait.clone());
                    let want = base[t];
                    std::thread::Builder::new()
                        .stack_size(WORKER_STACK)
                        .spawn(move || {
                            wait.wait();
                            (0..60).map(|_| observe(&o[t], &hs)).find(|x| hash64(x.as_bytes()) != want)
                        })
                        .unwrap()
                })
                .collect();
            for (t, th) in ths.into_iter().enumerate() {
                c.eval(format!("hammer|{kind}|{}", o[t].text).as_bytes());
                c.count("concurrent_operations", 60);
                match th.join() {
                    Ok(None) => {}
                    Ok(Some(x)) => c.fail(&format!("C25|{kind} gives another result concurrently"), json!({"how": "8 threads, one message each", "text": clip(&o[t].text, 4000), "got": clip(&x, 1500), "first_result": clip(&observe(&o[t], &hs), 1500)})),
                    Err(_) => c.fail(&format!("C25|{kind} panics concurrently"), json!({"panic": last_panic(), "text": clip(&o[t].text, 4000)})),
                }
            }
        });
        // one operation a thousand times over, with an intact neighbour in between
        run.par("marathon", if run.thorough() { 256 } else { 64 }, |c| {
            let kinds = ["xml", "json", "doc", "parse_mx", "validate_mx", "publish_mx", "generate_mx", "xml"];
            let kind = kinds[c.idx as usize % kinds.len()];
            let fault = c.idx as usize / kinds.len() % 8;
            let short = ["admi.024", "camt.025", "camt.107", "camt.060"][c.rng.below(4)];
            let mt = MTS.iter().find(|m| m.short == short).unwrap();
            let (h, m) = (hdr_module(c.run.s), c.run.s.doc(mt.module));
            let cfg = Cfg { p_opt: 0.0, budget: 5, ..Cfg::default() };
            let good = message(c.run.s, mt, &[], &[], &mut c.rng, &cfg, None);
            let mut g = good.clone();
            let mut r = Rng::new(c.rng.next());
            let (mut n, k) = (0, r.below(6));
            let texts = |g: &Msg| match kind {
                "json" | "publish_mx" => msg_json(c.run.s, mt, g).to_string(),
                "generate_mx" => json!({"variables": {"v": 1}, "schema": msg_json(c.run.s, mt, g)}).to_string(),
                "doc" => document_only(m, mt.tag, &g.doc, &EnvStyle::plain()),
                _ => envelope(h, m, mt.tag, g, &EnvStyle::plain()),
            };
            match fault {
                // broken constraints
                1 => g.doc.walk_mut(m, &mut |_, x| if let Body::Str(v) = &mut x.body { *v = "\u{7f}".repeat(700) }),
                // something mandatory missing
                2 => g.doc.walk_mut(m, &mut |_, x| if let Body::Struct(s) = &mut x.body { n += 1; if n == k % 2 + 1 { s.iter_mut().for_each(|s| s.occ.clear()) } }),
                3 => g.hdr.walk_mut(h, &mut |_, x| if let Body::Struct(s) = &mut x.body { s.clear() }),
                _ => {}
            }
            let good = texts(&good);
            let text = texts(&g);
            let text = match fault {
                4 => text.replace(mt.tag, "Unknown"),
                5 => text.replace("AppHdr", "Hdr"),
                6 => text.chars().take(text.chars().count() * (k + 1) / 8).collect::<String>(),
                7 => text.replace("Document", "Dokument"),
                _ => text,
            };
            let news = c.run.dict.sizes(5000);
            let times = 12 + if !news.is_empty() && r.chance(0.6) { *r.pick(&news) } else { *r.pick(&[260, 520, 1030]) };
            let ty = mt.short.to_string();
            let (a, b) = (Op { kind, text, ty: ty.clone() }, Op { kind, text: good, ty });
            let hs = plug::Handlers::new();
            let (fa, fb) = (hash64(observe(&a, &hs).as_bytes()), hash64(observe(&b, &hs).as_bytes()));
            c.eval(format!("marathon|{kind}|{}", a.text).as_bytes());
            c.saw("marathons", format!("{kind}|{fault}").as_bytes());
            c.count("operations_repeated", times as u64);
            for i in 0..times {
                for (o, want) in [(&a, fa), (&b, fb)] {
                    if (i % 25 == 0 || i + 12 > times || std::ptr::eq(o, &a)) && hash64(observe(o, &hs).as_bytes()) != want {
                        return c.fail(&format!("C25|{kind} gives another result after many"), json!({"repetition": i, "of": times, "fault": fault, "repeated": clip(&a.text, 3000), "text": clip(&o.text, 3000), "got_now": clip(&observe(o, &hs), 1500)}));
                    }
                }
            }
        });
        let sp = Space::new(run.s);
        run.par_n("engine", if run.thorough() { 12 } else { 4 }, 1, |c| {
            let eng = Arc::new(engine());
            let n = 160;
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).thread_stack_size(WORKER_STACK).build().unwrap();
            let mut jobs = vec![];
            for _ in 0..n {
                let cfg = vary(c);
                let (t, p) = &sp.paths[c.rng.below(sp.paths.len())];
                let mt = &MTS[*t];
                let mut g = message(c.run.s, mt, p, &[], &mut c.rng, &cfg, None);
                crate::p_plugin::no_literal(c, mt, &mut g);
                jobs.push((mt.short, msg_json(c.run.s, mt, &g)));
            }
            let hs: Vec<_> = jobs
                .iter()
                .map(|(t, j)| {
                    let (eng, j, t) = (eng.clone(), j.clone(), t.to_string());
                    rt.spawn(async move {
                        let mut m = Message::from_value(&json!({"variables": {}, "schema": j}));
                        let r = eng.process_message(&mut m).await.map_err(|e| e.to_string());
                        tokio::task::yield_now().await;
                        let mut why = vec![];
                        if r.is_err() || !m.errors.is_empty() {
                            why.push(format!("{r:?} {:?}", m.errors));
                        }
                        if m.data()["result"]["valid"] != json!(true) {
                            why.push(format!("validity {}", m.data()["result"]));
                        }
                        if m.metadata()["mx_json"]["message_type"] != json!(t) {
                            why.push(format!("type {}", m.metadata()["mx_json"]));
                        }
                        if let Some(d) = json_near(&j, &m.data()["mx_json"], "") {
                            why.push(d);
                        }
                        why
                    })
                })
                .collect();
            for (h, (t, j)) in hs.into_iter().zip(&jobs) {
                c.eval(j.to_string().as_bytes());
                match plug::block_on(h) {
                    Ok(w) if w.is_empty() => c.count("messages_through_shared_engine", 1),
                    Ok(w) => c.fail("C25|shared engine", json!({"type": t, "why": clip(&w.join("; "), 2000), "json": clip(&j.to_string(), 3000)})),
                    Err(e) => c.fail("C25|shared engine panics", json!({"type": t, "error": e.to_string()})),
                }
            }
        });
        // a long history of refused and accepted texts leaves no trace
        run.par("history", if run.thorough() { 400 } else { 60 }, |c| {
            let hs = plug::Handlers::new();
            let o = ops(c.run.s, c.rng.next(), 18);
            let base: Vec<String> = o.iter().map(|x| observe(x, &hs)).collect();
            for k in 0..40 {
                let i = c.rng.below(o.len());
                let mut x = o[i].clone();
                if c.rng.chance(0.7) {
                    x.text = mutate(&mut c.rng, c.run.dict, &x.text, 1 + k % 4);
                }
                let _ = no_panic(|| observe(&x, &hs));
                let i = c.rng.below(o.len());
                let y = observe(&o[i], &hs);
                c.eval(format!("{}|{}", c.idx, x.text).as_bytes());
                if y != base[i] {
                    return c.fail(&format!("C25|{} gives another result after other inputs", o[i].kind), json!({"text": clip(&o[i].text, 3000), "before": clip(&base[i], 1500), "after": clip(&y, 1500), "preceding": clip(&x.text, 1500)}));
                }
            }
        });
    });
}
