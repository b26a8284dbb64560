//! Message-tree generator over the reference schema, with independent renderings to XML and JSON.
use crate::dict::Dict;
use crate::rng::Rng;
use crate::schema::*;
use regex_syntax::hir::{Class, Hir, HirKind};
use serde_json::{Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Str(String),
    /// lexical form; JSON rendering is the same literal as a number
    Num(String),
    Bool(bool),
    Enum(String),
    Struct(Vec<Slot>),
}
/// One schema field inside a struct, with its occurrences (empty = absent)
#[derive(Clone, Debug, PartialEq)]
pub struct Slot {
    pub field: usize,
    pub occ: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub ty: Ty,
    pub body: Body,
}

/// How text values are chosen
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Text {
    /// conforming to pattern/length; ordinary characters otherwise
    Valid,
    /// conforming to pattern/length, at a length boundary (min or max)
    Boundary,
    /// any XML-legal text: markup characters, entities look-alikes, unicode (validation ignored)
    Hostile,
    /// like Hostile, with outer white space, nothing but white space, or nothing at all; only for
    /// values that are written or kept as JSON
    Spaced,
    /// mostly nothing or nothing but white space; for the same uses
    Blank,
    /// the values that have a meaning of their own somewhere: defaults, placeholders, switches
    Usual,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// probability that an optional field off the forced path is present
    pub p_opt: f64,
    /// soft limit on the number of nodes; beyond it only mandatory content is produced
    pub budget: usize,
    pub text: Text,
    pub max_rep: usize,
    /// repetitions at the forced path's list elements
    pub forced_rep: usize,
    /// fixed number of occurrences for every list element that is present (stress on long lists)
    pub list_len: Option<(usize, usize)>,
    pub dict: Option<&'static Dict>,
    /// share of texts replaced by a close relative (other case, other separators, other time zone, ...)
    pub near: f64,
    /// those relatives need not satisfy the element's constraints
    pub lax: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { p_opt: 0.15, budget: 400, text: Text::Valid, max_rep: 3, forced_rep: 1, list_len: None, dict: None, near: 0.0, lax: false }
    }
}

pub struct Gen<'a> {
    pub s: &'a Schema,
    pub m: &'a Module,
    pub rng: Rng,
    pub cfg: Cfg,
    nodes: usize,
    // values already used in this message: related places often hold equal content
    used_nodes: Vec<Node>,
    used_texts: Vec<String>,
    used_numbers: Vec<String>,
}

/// white space of XML; a no-break space or any other space of Unicode is content
pub fn is_text_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a Schema, m: &'a Module, rng: Rng, cfg: Cfg) -> Self {
        Gen { s, m, rng, cfg, nodes: 0, used_nodes: vec![], used_texts: vec![], used_numbers: vec![] }
    }
    /// A message in which the element at `path` (field indices from the root) is present.
    pub fn message(&mut self, path: &[usize]) -> Node {
        self.nodes = 0;
        self.node(Ty::Ref(self.m.root), None, path)
    }
    fn node(&mut self, ty: Ty, f: Option<&Field>, path: &[usize]) -> Node {
        if path.is_empty() && matches!(ty, Ty::Ref(_)) && self.rng.chance(0.06) && self.nodes < self.cfg.budget {
            let same: Vec<usize> = (0..self.used_nodes.len()).filter(|i| self.used_nodes[*i].ty == ty).collect();
            if !same.is_empty() {
                let n = self.used_nodes[*self.rng.pick(&same)].clone();
                self.nodes += n.count();
                return n;
            }
        }
        self.nodes += 1;
        let body = match ty {
            Ty::Prim(Prim::Bool) => Body::Bool(self.rng.chance(0.5)),
            Ty::Prim(Prim::Num) => {
                let n = if !self.used_numbers.is_empty() && self.rng.chance(0.1) { self.rng.pick(&self.used_numbers).clone() } else { self.number() };
                self.used_numbers.push(n.clone());
                Body::Num(n)
            }
            Ty::Prim(Prim::Str) => {
                let f = f.unwrap();
                let old = if !self.used_texts.is_empty() && self.rng.chance(0.08) { Some(self.rng.pick(&self.used_texts).clone()) } else { None };
                let t = match old {
                    Some(t) if conforms(self.s, f, &t) && !(f.xml.starts_with('@') && t.contains(['\n', '\t', '\r'])) => t,
                    _ => {
                        let t = self.text(f);
                        if self.cfg.near > 0.0 && self.rng.chance(self.cfg.near) {
                            let n = near(&t, &f.xml, &mut self.rng);
                            if self.cfg.lax || conforms(self.s, f, &n) { n } else { t }
                        } else {
                            t
                        }
                    }
                };
                self.used_texts.push(t.clone());
                Body::Str(t)
            }
            Ty::Ref(t) => match &self.m.types[t].kind {
                Kind::Enum(v) => Body::Enum(self.rng.pick(v).clone()),
                Kind::Struct(fs) => {
                    let mut slots = vec![];
                    for (i, f) in fs.iter().enumerate() {
                        let forced = path.first() == Some(&i);
                        let sub: &[usize] = if forced { &path[1..] } else { &[] };
                        let room = self.nodes < self.cfg.budget;
                        let n = match f.card {
                            Card::Req => 1,
                            Card::Opt => (forced || (room && self.rng.chance(self.cfg.p_opt))) as usize,
                            Card::Vec | Card::OptVec => {
                                if forced {
                                    self.cfg.forced_rep.max(1)
                                } else if f.card == Card::Vec || (room && self.rng.chance(self.cfg.p_opt)) {
                                    if room { 1 + self.rng.below(self.cfg.max_rep) } else { 1 }
                                } else {
                                    0
                                }
                            }
                        };
                        // the forced path continues in the last occurrence
                        let n = match self.cfg.list_len {
                            Some((lo, hi)) if n > 0 && matches!(f.card, Card::Vec | Card::OptVec) && (room || forced) => self.rng.range(lo, hi),
                            _ => n,
                        };
                        let mut occ: Vec<Node> = (0..n)
                            .map(|k| self.node(f.ty, Some(f), if forced && k + 1 == n { sub } else { &[] }))
                            .collect();
                        // runs of equal entries
                        if n >= 2 && self.rng.chance(if forced { 0.3 } else { 0.15 }) {
                            for k in (0..n - 1).rev() {
                                if self.rng.chance(0.6) {
                                    occ[k] = occ[k + 1].clone();
                                }
                            }
                        }
                        slots.push(Slot { field: i, occ });
                    }
                    Body::Struct(slots)
                }
            },
        };
        let n = Node { ty, body };
        if matches!(n.body, Body::Struct(_)) && self.used_nodes.len() < 64 && n.count() < 100 {
            self.used_nodes.push(n.clone());
        }
        n
    }
    pub fn number(&mut self) -> String {
        let r = &mut self.rng;
        if let Some(d) = self.cfg.dict {
            if !d.new_ints.is_empty() && r.chance(0.1) {
                let n = *r.pick(&d.new_ints);
                if n < 1_000_000_000_000 {
                    return match r.below(6) { 0 => format!("{}", n + 1), 1 => format!("{}", n.saturating_sub(1)), 2 => format!("{n}.01"), 3 => format!("{}.99", n.saturating_sub(1)), _ => format!("{n}") };
                }
            }
            if !d.new_decimals.is_empty() && r.chance(0.1) {
                let t = r.pick(&d.new_decimals);
                if t.len() < 15 && t.bytes().all(|b| b.is_ascii_digit() || b == b'.') {
                    return t.clone();
                }
            }
        }
        if self.cfg.text == Text::Usual && r.chance(0.7) {
            return (*r.pick(&["0", "1", "0.0", "0.00", "1.0", "100", "1000", "0.01", "2", "10", "999999999"])).to_string();
        }
        // at most 15 significant digits: exactly representable by every conforming implementation
        match r.below(10) {
            0 => (*r.pick(&["0", "1", "0.01", "0.1", "0.2", "0.3", "100", "1000.5", "99999.99", "0.00001", "1.10", "1234567.89"])).to_string(),
            1 => format!("{}", r.next() % 1_000_000_000_000_000),
            2 => format!("0.{:05}", r.next() % 100_000),
            3 => format!("{}.{:02}", r.next() % 10_000_000_000_000, r.next() % 100),
            4 => format!("{}.{:05}", r.next() % 10_000_000_000, r.next() % 100_000),
            5 => format!("{}", r.next() % 1000),
            _ => format!("{}.{:02}", r.next() % 1_000_000, r.next() % 100),
        }
    }
    pub fn text(&mut self, f: &Field) -> String {
        if let Some(d) = self.cfg.dict {
            for (pool, p) in [(&d.new_strings, 0.12), (&d.strings, 0.02)] {
                if !pool.is_empty() && self.rng.chance(p) {
                    let w = self.rng.pick(pool).clone();
                    let v = if self.rng.chance(0.5) { w } else { format!("{}{w}{}", self.rng.pick(&["A", "x ", "1", ""]), self.rng.pick(&["B", " y", "2", ""])) };
                    let v: String = v.chars().filter(|c| !c.is_control()).collect();
                    let v = v.trim_matches(is_text_space).to_string();
                    if !v.is_empty() && (self.cfg.text == Text::Hostile || conforms(self.s, f, &v)) {
                        return v;
                    }
                }
            }
        }
        if self.cfg.text == Text::Usual {
            for _ in 0..20 {
                let v = usual(&f.xml, &mut self.rng);
                if conforms(self.s, f, v) || self.cfg.lax && self.rng.chance(0.3) {
                    return v.to_string();
                }
            }
        }
        match self.cfg.text {
            Text::Hostile => hostile(&mut self.rng),
            t @ (Text::Spaced | Text::Blank) => {
                let r = &mut self.rng;
                if t == Text::Blank && r.chance(0.8) {
                    return (*r.pick(&["", "", " ", "   ", "\n"])).to_string();
                }
                let v = if r.chance(0.5) { hostile(r) } else { valid_text(self.s, f, r, None) };
                match r.below(6) {
                    0 => v,
                    1 => String::new(),
                    2 => (*r.pick(&[" ", "  ", "\t", "\n", " \n ", "\u{a0}", "\u{2003}", "\u{3000}", "\r"])).to_string(),
                    _ => format!("{}{v}{}", r.pick(&["", " ", "  ", "\n", "\t", "\u{a0}"]), r.pick(&["", " ", "   ", "\n", "\t", "\r\n", "\u{3000}"])),
                }
            }
            t => {
                for k in 0..40 {
                    let want = match t {
                        Text::Boundary => Some(if k % 2 == 0 { f.len.and_then(|l| l.1) } else { f.len.and_then(|l| l.0) }),
                        _ => None,
                    };
                    let v = valid_text(self.s, f, &mut self.rng, want.flatten());
                    if conforms(self.s, f, &v) {
                        return v;
                    }
                }
                // patterns here always accept something short
                for _ in 0..1000 {
                    let v = valid_text(self.s, f, &mut self.rng, None);
                    if conforms(self.s, f, &v) {
                        return v;
                    }
                }
                panic!("cannot generate a conforming value for {}", f.xml)
            }
        }
    }
}

/// Specification of a conforming text value: length bounds in characters on the value as given,
/// pattern on the whole value (leading/trailing white space set aside).
pub fn conforms(s: &Schema, f: &Field, v: &str) -> bool {
    let n = v.chars().count();
    if let Some((lo, hi)) = f.len {
        if lo.is_some_and(|l| n < l) || hi.is_some_and(|h| n > h) {
            return false;
        }
    }
    match f.pattern {
        Some(p) => s.patterns[p].full.is_match(v.trim()),
        None => true,
    }
}

/// Plausible value for a field; `want` is a desired number of characters when the pattern allows it.
pub fn valid_text(s: &Schema, f: &Field, r: &mut Rng, want: Option<usize>) -> String {
    let (lo, hi) = match f.len {
        Some((l, h)) => (l.unwrap_or(0), h.unwrap_or(60)),
        None => (1, 40),
    };
    let target = want.unwrap_or_else(|| match r.below(8) {
        0 => hi.min(400),
        1 => lo.max(1),
        _ => r.range(lo.max(1), hi.clamp(lo.max(1), 24.max(lo))),
    });
    let v = if let Some(p) = f.pattern {
        let mut out = String::new();
        sample(&s.patterns[p].hir, r, target, &mut out);
        if out.chars().count() > hi {
            out = out.chars().take(hi).collect();
        }
        out
    } else if f.len.is_none() && (f.xml.contains("Dt") || f.xml.contains("Tm")) {
        if f.xml.contains("Tm") { "2025-03-04T10:11:12.123+01:00".into() } else { format!("20{:02}-{:02}-{:02}", r.below(100), 1 + r.below(12), 1 + r.below(28)) }
    } else if f.xml == "@Ccy" {
        (*r.pick(&["EUR", "USD", "JPY", "XXX", "GBP"])).to_string()
    } else {
        let alpha: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -/.,+:()'éßЖ中€".chars().collect();
        let mut o = String::new();
        for _ in 0..target {
            o.push(*r.pick(&alpha));
        }
        o
    };
    no_outer_space(v, r)
}
/// leading / trailing white space is insignificant to the library; keep it out of compared values
fn no_outer_space(v: String, r: &mut Rng) -> String {
    let mut c: Vec<char> = v.chars().collect();
    if let Some(x) = c.first_mut() {
        if is_text_space(*x) {
            *x = *r.pick(&['A', 'b', '7']);
        }
    }
    if let Some(x) = c.last_mut() {
        if is_text_space(*x) {
            *x = *r.pick(&['A', 'b', '7']);
        }
    }
    c.into_iter().collect()
}

/// random member of a regular expression, aiming at `target` characters
pub fn sample(h: &Hir, r: &mut Rng, target: usize, out: &mut String) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => out.push_str(std::str::from_utf8(&l.0).unwrap()),
        HirKind::Class(Class::Unicode(c)) => {
            let rs = c.ranges();
            // stay within ASCII-ish text when the class is wide (the dot)
            let rs: Vec<_> = rs.iter().collect();
            for _ in 0..50 {
                let g = rs[r.below(rs.len())];
                let (a, b) = (g.start() as u32, g.end() as u32);
                let (a, b) = if b > 0x2FF { (a.max(0x20), b.min(0x7e)) } else { (a.max(0x20), b) };
                if a > b {
                    continue;
                }
                if let Some(ch) = char::from_u32(a + (r.next() % (b - a + 1) as u64) as u32) {
                    out.push(ch);
                    return;
                }
            }
            out.push('A');
        }
        HirKind::Class(Class::Bytes(_)) => unreachable!(),
        HirKind::Repetition(rep) => {
            let min = rep.min as usize;
            let max = rep.max.map(|x| x as usize).unwrap_or(usize::MAX);
            let used = out.chars().count();
            let left = target.saturating_sub(used);
            let n = if max == min { min } else if max <= 1 { r.range(min, max) } else if rep.max.is_some() { r.range(min, max).max(left.min(max).min(min.max(left))) } else { left.max(min) };
            let n = n.clamp(min, max).min(4000);
            for _ in 0..n {
                sample(&rep.sub, r, target, out);
                if out.chars().count() >= target.max(1) && rep.max.is_none() && n > min {
                    break;
                }
            }
        }
        HirKind::Capture(c) => sample(&c.sub, r, target, out),
        HirKind::Concat(v) => {
            // leave room for what follows
            let tail: usize = v.iter().map(|x| x.properties().minimum_len().unwrap_or(0)).sum();
            for x in v {
                let own = x.properties().minimum_len().unwrap_or(0);
                let t = target.saturating_sub(tail - own).max(own + out.chars().count());
                sample(x, r, if matches!(x.kind(), HirKind::Repetition(_)) { t } else { target }, out);
            }
        }
        HirKind::Alternation(v) => {
            let i = r.below(v.len());
            sample(&v[i], r, target, out)
        }
    }
}

pub const HOSTILE: &[&str] = &[
    "<", ">", "&", "\"", "'", "&amp;", "&lt;", "&#38;", "]]>", "<![CDATA[x]]>", "<!-- c -->", "</Document>", "<Document>", "<AppHdr>", "</AppHdr>",
    "<MsgDefIdr>pacs.008.001.08</MsgDefIdr>", "</FIToFICstmrCdtTrf>", "<?xml version=\"1.0\"?>", "\\n", "\\", "\\\\n", "\\t", "\\u0041", "%s", "${x}", "{}", "null", "true", "0",
    "é", "ß", "Ж", "中文", "€", "\u{1F600}", "\u{FEFF}x", "a\u{0301}", "\u{200B}x", "xmlns=\"evil\"", "@Ccy", "$value", "a  b", "a\tb", "a\nb", "a\rb", "a\r\nb", "--", "=\"", "/>", "ReceiptV08",
    "<FIToFICustomerCreditTransferV08>", "<BusinessApplicationHeaderV02>", "FIToFICstmrCdtTrf", "Envelope", "<Envelope>", "\u{7f}", "\u{85}x", "\u{2028}x", "\u{a0}x", "NaN", "-1", "1e5", "0x10", "+", " - ",
];
/// a date, a time or both, in any of the forms dates are commonly written
pub fn moment(r: &mut Rng) -> String {
    let d = match r.below(8) {
        0 => format!("{:02}.{:02}.20{:02}", 1 + r.below(28), 1 + r.below(12), r.below(100)),
        1 => format!("20{:02}{:02}{:02}", r.below(100), 1 + r.below(12), 1 + r.below(28)),
        2 => (*r.pick(&["2024-02-29", "0001-01-01", "9999-12-31", "2025-12-31", "1970-01-01", "2023-02-30", "-0044-03-15"])).to_string(),
        _ => format!("20{:02}-{:02}-{:02}", r.below(100), 1 + r.below(12), 1 + r.below(28)),
    };
    let z = (*r.pick(&["", "Z", "Z", "z", "+00:00", "-00:00", "+01:00", "-05:30", "+14:00", "+0100", " UTC", "+01"])).to_string();
    if r.chance(0.3) {
        return format!("{d}{z}");
    }
    let t = match r.below(6) {
        0 => "00:00:00".to_string(),
        1 => "24:00:00".to_string(),
        2 => "23:59:60".to_string(),
        3 => format!("{:02}:{:02}", r.below(24), r.below(60)),
        _ => format!("{:02}:{:02}:{:02}", r.below(24), r.below(60), r.below(60)),
    };
    let f = *r.pick(&["", "", ".0", ".000", ".1", ".10", ".123", ".123456", ".999999999", ".5"]);
    match r.below(8) {
        0 => format!("{t}{f}{z}"),
        1 => format!("{d} {t}{f}{z}"),
        _ => format!("{d}T{t}{f}{z}"),
    }
}
/// another text that somebody might take for the same one
/// values that programs give a meaning of their own: defaults, placeholders, switches, empty-like dates
pub fn usual(name: &str, r: &mut Rng) -> &'static str {
    const BY_NAME: &[(&str, &[&str])] = &[
        ("Prty", &["NORM", "NORM", "HIGH", "URGT"]),
        ("Ccy", &["USD", "EUR", "GBP", "JPY", "CHF", "XXX", "XTS", "KWD"]),
        ("Ctry", &["US", "GB", "DE", "ZZ", "XX", "CH"]),
        ("BICFI", &["DEUTDEFFXXX", "CHASUS33XXX", "CHASUS33", "XXXXXXXXXXX", "NOTPROVI"]),
        ("AnyBIC", &["DEUTDEFFXXX", "CHASUS33XXX", "XXXXXXXXXXX"]),
        ("BizSvc", &["swift.cbprplus.01", "swift.cbprplus.02", "swift.cbprplus.03", "swift.cbprplus.stp.02", "swift.cbprplus.cov.02", "swift.cbprplus.adv.02", "CBPR"]),
        ("MsgDefIdr", &["pacs.008.001.08", "pacs.009.001.08", "head.001.001.02", "camt.053.001.08"]),
        ("NbOfTxs", &["0", "1", "01", "1000"]),
        ("ElctrncSeqNb", &["0", "1"]),
        ("PgNb", &["1", "0", "00001"]),
    ];
    const ANY: &[&str] = &[
        "NOTPROVIDED", "NONREF", "NONE", "None", "null", "N/A", "NA", "UNKNOWN", "DEFAULT", "true", "false", "TRUE", "False", "yes", "no", "Y", "N", "0", "1", "00", "-1", "NaN", "0.00", "1.0", "NORM", "HIGH",
        "SHA", "OUR", "SLEV", "SHAR", "CRED", "DEBT", "INDA", "CLRG", "SDVA", "ACSC", "BOOK", "CODU", "COPY", "DUPL", "SALA", "SUPP", "CASH", "STP", "COV", "TEST", "USD", "EUR", "US", "X", "A", "-", ".", "?", "n/a", "1970-01-01", "1900-01-01",
        "9999-12-31", "2024-01-01", "2024-02-29", "2024-01-01T00:00:00+00:00", "2024-01-01T00:00:00Z", "2024-01-01T00:00:00.000+00:00", "1970-01-01T00:00:00+00:00", "9999-12-31T23:59:59+00:00", "00:00:00", "00:00:00Z", "+00:00", "0001-01-01",
        "00000000-0000-4000-0000-000000000000", "00000000-0000-4000-8000-000000000000", "/ACC/", "/BNF/", "/RETN/", "/INS/", "http://", "swift", "SWIFT", "MXMessage",
    ];
    let key = name.trim_start_matches('@');
    match BY_NAME.iter().find(|(n, _)| *n == key) {
        Some((_, v)) if r.chance(0.7) => r.pick(v),
        _ => r.pick(ANY),
    }
}
pub fn near(v: &str, name: &str, r: &mut Rng) -> String {
    let dated = name.contains("Dt") || name.contains("Tm");
    if r.chance(if dated { 0.7 } else { 0.06 }) {
        return moment(r);
    }
    let flip = |c: char| -> char {
        let mut u = c.to_uppercase();
        let mut l = c.to_lowercase();
        match (u.next(), u.next(), l.next(), l.next()) {
            (Some(a), None, _, _) if a != c => a,
            (_, _, Some(b), None) if b != c => b,
            _ => c,
        }
    };
    let o = match r.below(22) {
        0 => v.to_lowercase(),
        1 => v.to_uppercase(),
        2 => v.chars().map(flip).collect(),
        3 => v.chars().enumerate().map(|(i, c)| if i == 0 { flip(c) } else { c }).collect(),
        4 => v.replacen(' ', "  ", 1 + r.below(3)),
        5 => format!("{v}{}", r.pick(&[".", ",", ";", ":", "-", "/", "_", "!", "?", "*", "\\", "\"", "'", "=", "#", "..", "0", "00", ".0", ".00", "\u{301}", "\u{200d}", "\u{ad}"])),
        6 => format!("{}{v}", r.pick(&["0", "00", "+", "-", "#", "@", "$", "/", "//", ".", ",", "*", "=", "'", "\"", "(", "~", "\\", "_", "\u{200e}", "\u{ad}"])),
        7 => format!("{v}{v}"),
        8 => format!("{v} {v}"),
        9 => v.chars().rev().collect(),
        10 => v.chars().map(|c| match c { '-' => '_', '/' => '\\', '.' => ',', ',' => '.', ':' => ';', '+' => '-', ' ' => '\u{a0}', _ => c }).collect(),
        11 => v.chars().filter(|c| c.is_alphanumeric()).collect(),
        12 => format!("\"{v}\""),
        13 => format!("({v})"),
        14 => (*r.pick(&["007", "+7", "7.0", "1e3", "1,000", "1 000", "-0", "1.10", ".5", "5.", "0.0", "1_000", "0b1", "١٢", "１２", "½", "Infinity", "-inf"])).to_string(),
        15 => (*r.pick(&["true", "TRUE", "False", "yes", "Y", "N", "1", "0", "on", "null", "NULL", "None", "nil", "undefined", "NA", "N/A", "-", "."])).to_string(),
        16 => (*r.pick(&["e\u{301}", "\u{e9}", "ﬁ", "İ", "ı", "ﬀ", "Å", "\u{212b}", "ẞ", "ǆ", "Ａ", "①", "ſ", "K", "Ω"])).to_string() + v,
        17 => v.chars().map(|c| match c { '"' | '\'' => '’', '-' => '–', '.' => '…', 'e' => 'é', 'A' => 'А', 'o' => 'ο', _ => c }).collect(),
        18 => {
            let n = r.below(v.chars().count() + 1);
            let mut c: Vec<char> = v.chars().collect();
            let x = *r.pick(&[' ', '-', '/', '.', '\u{a0}', '\u{200b}', '\u{ad}', '\'', '0', '\n', '\t']);
            c.insert(n, x);
            c.into_iter().collect()
        }
        19 => {
            let mut c: Vec<char> = v.chars().collect();
            if c.len() > 1 {
                c.remove(r.below(c.len()));
            }
            c.into_iter().collect()
        }
        20 => {
            let mut c: Vec<char> = v.chars().collect();
            if c.len() > 1 {
                let i = r.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            c.into_iter().collect()
        }
        _ => v.split(' ').map(|w| { let mut c = w.chars(); c.next().map_or(String::new(), |x| x.to_uppercase().to_string() + &c.as_str().to_lowercase()) }).collect::<Vec<_>>().join(" "),
    };
    let o: String = if name.starts_with('@') { o.replace(['\n', '\t', '\r'], " ") } else { o };
    let o = no_outer_space(o, r);
    if o.is_empty() { v.to_string() } else { o }
}
/// spaces that are no white space in XML
pub const SPACES: &[&str] = &["\u{a0}", "\u{a0}", "\u{a0}", "\u{a0}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\u{1680}", "\u{feff}", "\u{200b}", "\u{202f}"];
pub fn hostile(r: &mut Rng) -> String {
    let mut o = String::new();
    let n = 1 + r.below(4);
    for _ in 0..n {
        if r.chance(0.7) {
            o.push_str(r.pick(HOSTILE));
        } else {
            let k = 1 + r.below(6);
            for _ in 0..k {
                o.push(*r.pick(&['A', 'z', '0', ' ', '.', '/', '-', 'é', '中', '<', '&']));
            }
        }
    }
    // outer white space is insignificant; bracket the value so that inner content is what is tested
    let first_last_ok = |s: &str| !is_text_space(s.chars().next().unwrap()) && !is_text_space(s.chars().last().unwrap());
    let o = if !first_last_ok(&o) { format!("x{o}x") } else { o };
    match r.below(12) {
        0 => format!("{}{o}", r.pick(SPACES)),
        1 => format!("{o}{}", r.pick(SPACES)),
        _ => o,
    }
}


// ---------------------------------------------------------------- navigation and specification

impl Node {
    pub fn slots(&self) -> &[Slot] {
        match &self.body {
            Body::Struct(s) => s,
            _ => &[],
        }
    }
    /// node at `path` (last occurrence at every list)
    pub fn at(&self, path: &[usize]) -> Option<&Node> {
        let mut n = self;
        for i in path {
            n = n.slots().iter().find(|s| s.field == *i)?.occ.last()?;
        }
        Some(n)
    }
    pub fn at_mut(&mut self, path: &[usize]) -> Option<&mut Node> {
        let mut n = self;
        for i in path {
            let Body::Struct(s) = &mut n.body else { return None };
            n = s.iter_mut().find(|s| s.field == *i)?.occ.last_mut()?;
        }
        Some(n)
    }
    pub fn slot_mut(&mut self, path: &[usize]) -> Option<&mut Slot> {
        let (l, p) = path.split_last()?;
        let n = self.at_mut(p)?;
        let Body::Struct(s) = &mut n.body else { return None };
        s.iter_mut().find(|s| s.field == *l)
    }
    pub fn count(&self) -> usize {
        1 + self.slots().iter().flat_map(|s| &s.occ).map(|n| n.count()).sum::<usize>()
    }
    pub fn walk_mut(&mut self, m: &Module, f: &mut dyn FnMut(&Field, &mut Node)) {
        if let (Ty::Ref(t), Body::Struct(slots)) = (self.ty, &mut self.body) {
            for s in slots {
                let fl = &m.fields(t)[s.field];
                for o in &mut s.occ {
                    f(fl, o);
                    o.walk_mut(m, f);
                }
            }
        }
    }
}

/// (code, path, field) a validator has to report
pub type Expect = (u32, String, String);

/// Specification of validation: every length and pattern constraint of every text present in the message.
/// `optional_groups=false` leaves out what lies inside optional groups.
pub fn expected_errors(s: &Schema, m: &Module, n: &Node, path: &str, optional_groups: bool, out: &mut Vec<Expect>) {
    let Ty::Ref(t) = n.ty else { return };
    for sl in n.slots() {
        let f = &m.fields(t)[sl.field];
        let p = if path.is_empty() { f.xml.clone() } else { format!("{path}.{}", f.xml) };
        for o in &sl.occ {
            match &o.body {
                Body::Str(v) => {
                    let k = v.chars().count();
                    if let Some((lo, hi)) = f.len {
                        if lo.is_some_and(|l| k < l) {
                            out.push((1001, p.clone(), f.xml.clone()));
                        }
                        if hi.is_some_and(|h| k > h) {
                            out.push((1002, p.clone(), f.xml.clone()));
                        }
                    }
                    if f.pattern.is_some_and(|x| !s.patterns[x].full.is_match(v.trim())) {
                        out.push((1005, p.clone(), f.xml.clone()));
                    }
                }
                Body::Struct(_) => {
                    if optional_groups || !f.optional_group {
                        expected_errors(s, m, o, &p, optional_groups, out)
                    }
                }
                _ => {}
            }
        }
    }
}

// ---------------------------------------------------------------- renderings


pub fn to_json(m: &Module, n: &Node) -> Value {
    match &n.body {
        Body::Str(s) | Body::Enum(s) => Value::String(s.clone()),
        Body::Bool(b) => Value::Bool(*b),
        Body::Num(s) => json_num(s),
        Body::Struct(slots) => {
            let Ty::Ref(t) = n.ty else { unreachable!() };
            let fs = m.fields(t);
            let mut o = Map::new();
            for s in slots {
                let f = &fs[s.field];
                match f.card {
                    Card::Req | Card::Opt => {
                        if let Some(x) = s.occ.first() {
                            o.insert(f.xml.clone(), to_json(m, x));
                        }
                    }
                    Card::Vec | Card::OptVec => {
                        if !s.occ.is_empty() {
                            o.insert(f.xml.clone(), Value::Array(s.occ.iter().map(|x| to_json(m, x)).collect()));
                        }
                    }
                }
            }
            Value::Object(o)
        }
    }
}
/// decimal literal -> JSON number through the correctly rounded standard-library conversion
pub fn json_num(s: &str) -> Value {
    Value::Number(serde_json::Number::from_f64(s.parse::<f64>().unwrap()).unwrap())
}

#[derive(Clone, Copy, Debug, Default)]
pub struct XmlStyle {
    /// indentation and newlines between elements
    pub pretty: bool,
    /// insert comments and processing instructions between elements
    pub comments: bool,
    /// comments may contain text that looks like the envelope's own tags
    pub tricky_comments: bool,
    /// use CDATA / numeric references for some text (0 = never; otherwise the seed)
    pub alt_escape: u64,
    pub crlf: bool,
    /// white space inside tags, single-quoted attributes
    pub odd_tags: bool,
    /// <X/> for empty elements
    pub self_close: bool,
    /// white space around text
    pub pad_text: bool,
    /// comments, processing instructions and CDATA borders in the middle of texts
    pub split_text: bool,
    /// one comment of this many bytes somewhere (0 = none)
    pub long: usize,
    pub seed: u64,
}
/// sizes the source under test mentions
pub static LONG: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
impl XmlStyle {
    pub fn random(r: &mut Rng) -> XmlStyle {
        let long = if r.chance(0.06) {
            match LONG.get() {
                Some(v) if !v.is_empty() && r.chance(0.6) => *r.pick(v),
                _ => *r.pick(&[300, 1100, 2100, 4200, 8300, 16500, 33000, 66000]),
            }
        } else {
            0
        };
        XmlStyle {
            split_text: r.chance(0.3), long, seed: r.next(), pretty: r.chance(0.6), comments: r.chance(0.5), tricky_comments: r.chance(0.5), alt_escape: if r.chance(0.6) { r.next() | 1 } else { 0 }, crlf: r.chance(0.3), odd_tags: r.chance(0.4), self_close: r.chance(0.5), pad_text: r.chance(0.3) }
    }
}
pub fn esc(s: &str, out: &mut String) {
    for c in s.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '&' => out.push_str("&amp;"),
            '"' => out.push_str("&quot;"),
            '\'' => out.push_str("&apos;"),
            '\r' => out.push_str("&#13;"),
            _ => out.push(c),
        }
    }
}
fn esc_alt(s: &str, r: &mut Rng, out: &mut String) {
    match r.below(4) {
        _ if s.contains("]]>") || s.contains('\r') => esc(s, out),
        0 => esc(s, out),
        1 => {
            out.push_str("<![CDATA[");
            out.push_str(s);
            out.push_str("]]>");
        }
        2 => {
            for c in s.chars() {
                if r.chance(0.3) || "<>&\"'".contains(c) {
                    if r.chance(0.5) { out.push_str(&format!("&#{};", c as u32)) } else if r.chance(0.5) { out.push_str(&format!("&#x{:X};", c as u32)) } else if r.chance(0.5) { out.push_str(&format!("&#x{:06x};", c as u32)) } else { out.push_str(&format!("&#{:05};", c as u32)) }
                } else {
                    out.push(c)
                }
            }
        }
        _ => {
            for c in s.chars() {
                match c {
                    '<' => out.push_str("&lt;"),
                    '&' => out.push_str("&amp;"),
                    _ => out.push(c),
                }
            }
        }
    }
}
thread_local! {
    /// a node (by address) that is written under another name
    static RENAMED: std::cell::RefCell<Option<(usize, String)>> = const { std::cell::RefCell::new(None) };
}
/// writes with the node at the address under another name
pub fn renamed<T>(at: usize, name: &str, f: impl FnOnce() -> T) -> T {
    RENAMED.with(|r| *r.borrow_mut() = Some((at, name.to_string())));
    let v = f();
    RENAMED.with(|r| *r.borrow_mut() = None);
    v
}
fn name_of(n: &Node, usual: &str) -> String {
    RENAMED.with(|r| match &*r.borrow() {
        Some((at, new)) if *at == n as *const Node as usize => new.clone(),
        _ => usual.to_string(),
    })
}
pub struct XmlW {
    pub style: XmlStyle,
    pub out: String,
    rng: Rng,
}
const COMMENTS: &[&str] = &["<!-- note: a > b -->", "<!---->", "<!-- é中 & \" ' -->", "<?pi some data?>"];
const TRICKY: &[&str] = &["<!-- <AppHdr> -->", "<!-- </AppHdr> -->", "<!-- </Document> -->", "<!-- <Document><Rcpt> -->", "<!-- <MsgDefIdr>camt.025.001.08</MsgDefIdr> -->", "<!-- xmlns=\"urn:x\" -->", "<?x </Document>?>"];
impl XmlW {
    pub fn new(style: XmlStyle) -> Self {
        XmlW { style, out: String::new(), rng: Rng::new(style.alt_escape ^ style.seed ^ 0x5151) }
    }
    pub fn nl(&mut self, depth: usize) {
        self.nl_(depth, true)
    }
    /// `cm`: comments allowed here
    pub fn nl_(&mut self, depth: usize, cm: bool) {
        if self.style.pretty {
            self.out.push_str(if self.style.crlf { "\r\n" } else { "\n" });
            for _ in 0..depth {
                self.out.push_str(if self.style.crlf { "\t" } else { "  " });
            }
        }
        if cm && self.style.comments && self.rng.chance(0.1) {
            let c = if self.style.tricky_comments && self.rng.chance(0.5) { *self.rng.pick(TRICKY) } else { *self.rng.pick(COMMENTS) };
            self.out.push_str(c);
        }
        if cm && self.style.long > 0 && self.rng.chance(0.15) {
            let what = *self.rng.pick(&["c", "é", "<x>", " ", "<MsgDefIdr>camt.025.001.08</MsgDefIdr>", "</AppHdr>"]);
            self.out.push_str(&format!("<!--{}-->", what.repeat(self.style.long / what.len() + 1)));
            self.style.long = 0;
        }
    }
    fn sp(&mut self) {
        if self.style.odd_tags && self.rng.chance(0.3) {
            let w = *self.rng.pick(&[" ", "\n", "  ", "\t"]);
            self.out.push_str(w);
        }
    }
    fn text(&mut self, n: &Node) {
        let mut o = String::new();
        let s = scalar(n);
        let pad = self.style.pad_text && !s.is_empty() && self.rng.chance(0.3);
        if self.style.alt_escape != 0 && matches!(n.body, Body::Str(_)) { esc_alt(&s, &mut self.rng, &mut o) } else { esc(&s, &mut o) }
        if pad {
            self.out.push_str("\n  ");
        }
        // a break is put where the text has no markup of its own
        if self.style.split_text && !o.is_empty() && !o.contains(['&', '<']) && self.rng.chance(0.4) {
            let cuts: Vec<usize> = o.char_indices().map(|x| x.0).chain([o.len()]).collect();
            let at = *self.rng.pick(&cuts);
            let brk = *self.rng.pick(&["<!-- c -->", "<!---->", "<?p q?>", "<![CDATA[]]>", "<!-- <Document> -->"]);
            let (a, b) = o.split_at(at);
            let b = if !b.is_empty() && self.rng.chance(0.4) { format!("<![CDATA[{b}]]>") } else { b.to_string() };
            o = format!("{a}{brk}{b}");
        }
        self.out.push_str(&o);
        if pad {
            self.out.push_str(" \t");
        }
    }
    pub fn elem(&mut self, m: &Module, tag: &str, n: &Node, depth: usize, extra_attr: &str) {
        self.out.push('<');
        self.out.push_str(tag);
        self.out.push_str(extra_attr);
        let mut empty = false;
        match &n.body {
            Body::Struct(slots) => {
                let Ty::Ref(t) = n.ty else { unreachable!() };
                let fs = m.fields(t);
                let mut value: Option<&Node> = None;
                let mut kids = 0;
                for s in slots {
                    let f = &fs[s.field];
                    if f.xml.starts_with('@') {
                        for x in &s.occ {
                            self.out.push(' ');
                            self.sp();
                            self.out.push_str(name_of(x, &f.xml).trim_start_matches('@'));
                            self.sp();
                            self.out.push('=');
                            self.sp();
                            let q = if self.style.odd_tags && self.rng.chance(0.5) { '\'' } else { '"' };
                            self.out.push(q);
                            let mut o = String::new();
                            esc(&scalar(x), &mut o);
                            self.out.push_str(&o);
                            self.out.push(q);
                        }
                    } else if f.xml == "$value" {
                        value = s.occ.first();
                    } else {
                        kids += s.occ.len();
                    }
                }
                self.sp();
                if value.is_none() && kids == 0 && self.style.self_close {
                    empty = true;
                } else {
                    self.out.push('>');
                    if let Some(v) = value {
                        self.text(v);
                    } else {
                        for s in slots {
                            let f = &fs[s.field];
                            if f.xml.starts_with('@') {
                                continue;
                            }
                            for x in &s.occ {
                                // comments between members of one list would be fine too, kept for mixed content
                                self.nl(depth + 1);
                                self.elem(m, &name_of(x, &f.xml), x, depth + 1, "");
                            }
                        }
                        if kids > 0 {
                            self.nl(depth);
                        }
                    }
                }
            }
            Body::Str(s) if s.is_empty() && self.style.self_close => empty = true,
            _ => {
                self.sp();
                self.out.push('>');
                self.text(n);
            }
        }
        if empty {
            self.out.push_str("/>");
        } else {
            self.out.push_str("</");
            self.out.push_str(tag);
            self.sp();
            self.out.push('>');
        }
    }
}
pub fn scalar(n: &Node) -> String {
    match &n.body {
        Body::Str(s) | Body::Enum(s) | Body::Num(s) => s.clone(),
        Body::Bool(b) => b.to_string(),
        Body::Struct(_) => unreachable!(),
    }
}

/// A whole message: header + document
#[derive(Clone, Debug)]
pub struct Msg {
    pub hdr: Node,
    pub doc: Node,
}
/// How the envelope around a message is written
#[derive(Clone, Debug, Default)]
pub struct EnvStyle {
    pub xml: XmlStyle,
    pub decl: &'static str,
    pub bom: bool,
    /// None: header and document directly below a root; the root's own tag
    pub root: Option<&'static str>,
    pub root_attr: String,
    pub hdr_attr: String,
    pub doc_attr: String,
    /// elements around the root
    pub wrap: bool,
    /// unrelated elements next to header and document: before, between, after
    pub beside: [bool; 3],
    /// comments and white space after the end
    pub after: &'static str,
}
pub const DECLS: &[&str] = &["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n", "<?xml version=\"1.0\"?>\r\n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- generated <AppHdr> by test -->\n"];
impl EnvStyle {
    pub fn plain() -> EnvStyle {
        EnvStyle { root: Some("Envelope"), ..Default::default() }
    }
    pub fn random(r: &mut Rng, full: &str) -> EnvStyle {
        EnvStyle {
            xml: XmlStyle::random(r),
            decl: r.pick(DECLS),
            bom: r.chance(0.1),
            wrap: r.chance(0.1),
            beside: [r.chance(0.07), r.chance(0.04), r.chance(0.07)],
            after: if r.chance(0.2) { *r.pick(&["\n", "\r\n  ", "<!-- end -->", "\n<?end x?>\n", "<!-- <Document><AppHdr> -->"]) } else { "" },
            root: Some(*r.pick(&["Envelope", "Envelope", "RequestPayload", "DataPDU", "Message", "e:Envelope", "BizMsgEnvlp", "Docs"])),
            root_attr: (*r.pick(&["", " xmlns=\"urn:swift:xsd:envelope\"", " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"", " xmlns=\"urn:a&amp;b\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"", " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"urn:x x.xsd\"", " xmlns:e=\"urn:e\"", " id='a > b'"])).to_string(),
            hdr_attr: (*r.pick(&["", " xmlns=\"urn:iso:std:iso:20022:tech:xsd:head.001.001.02\"", " xmlns='urn:iso:std:iso:20022:tech:xsd:head.001.001.02'"])).to_string(),
            doc_attr: if r.chance(0.5) { String::new() } else { format!(" xmlns=\"urn:iso:std:iso:20022:tech:xsd:{full}\"") },
        }
    }
}
pub fn envelope(h: &Module, m: &Module, tag: &str, g: &Msg, st: &EnvStyle) -> String {
    let mut w = XmlW::new(st.xml);
    if st.bom {
        w.out.push('\u{feff}');
    }
    w.out.push_str(st.decl);
    let d = st.root.is_some() as usize;
    if st.wrap {
        w.out.push_str("<Outer><Body id=\"1\">");
        w.nl(1);
    }
    if let Some(r) = st.root {
        let ns = if r.starts_with("e:") && !st.root_attr.contains("xmlns:e=") { " xmlns:e=\"urn:e\"" } else { "" };
        w.out.push_str(&format!("<{r}{}{ns}>", st.root_attr));
        w.nl(1);
    }
    if st.beside[0] {
        w.out.push_str("<Revision>2.0.13</Revision>");
        w.nl(d);
    }
    w.elem(h, "AppHdr", &g.hdr, d, &st.hdr_attr);
    w.nl(d);
    if st.beside[1] {
        w.out.push_str("<Between/>");
        w.nl(d);
    }
    document_into(&mut w, m, tag, &g.doc, d, &st.doc_attr);
    if st.beside[2] {
        w.nl(d);
        w.out.push_str("<Trailer><Id>7</Id></Trailer>");
    }
    if let Some(r) = st.root {
        w.nl(0);
        w.out.push_str(&format!("</{r}>"));
    }
    if st.wrap {
        w.nl(0);
        w.out.push_str("</Body></Outer>");
    }
    w.out.push_str(st.after);
    w.out
}
fn document_into(w: &mut XmlW, m: &Module, tag: &str, doc: &Node, d: usize, attr: &str) {
    w.out.push_str(&format!("<Document{attr}>"));
    w.nl(d + 1);
    w.elem(m, tag, doc, d + 1, "");
    w.nl(d);
    w.out.push_str("</Document>");
}
pub fn document_only(m: &Module, tag: &str, doc: &Node, st: &EnvStyle) -> String {
    let mut w = XmlW::new(st.xml);
    if st.bom {
        w.out.push('\u{feff}');
    }
    w.out.push_str(st.decl);
    document_into(&mut w, m, tag, doc, 0, &st.doc_attr);
    w.out.push_str(st.after);
    w.out
}
