//! Independent strict XML 1.0 reader (no DTD), used to judge XML the library writes.
use crate::gen_::*;
use crate::schema::*;

#[derive(Debug, Clone, Default, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
    pub text: String,
}
struct P<'a> {
    s: &'a str,
    i: usize,
}
type R<T> = Result<T, String>;

fn is_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_numeric() || c == '-' || c == '.'
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let r: String = self.rest().chars().take(60).collect();
        Err(format!("{m} at byte {}: {r:?}", self.i))
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches([' ', '\t', '\r', '\n']).len();
        self.i += n;
        n > 0
    }
    fn name(&mut self) -> R<String> {
        let r = self.rest();
        if !r.chars().next().is_some_and(name_start) {
            return self.err("name expected");
        }
        let n = r.find(|c| !name_char(c)).unwrap_or(r.len());
        self.i += n;
        Ok(r[..n].to_string())
    }
    fn reference(&mut self, out: &mut String) -> R<()> {
        let Some(e) = self.rest().find(';') else { return self.err("unterminated reference") };
        let t = &self.rest()[1..e];
        let c = match t {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = t.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else { t.strip_prefix('#').and_then(|d| d.parse().ok()) };
                match n.and_then(char::from_u32).filter(|c| is_char(*c)) {
                    Some(c) => c,
                    None => return self.err("bad reference"),
                }
            }
        };
        out.push(c);
        self.i += e + 1;
        Ok(())
    }
    fn comment(&mut self) -> R<bool> {
        if !self.eat("<!--") {
            return Ok(false);
        }
        match self.rest().find("--") {
            Some(k) if self.rest()[k..].starts_with("-->") => {
                self.i += k + 3;
                Ok(true)
            }
            _ => self.err("bad comment"),
        }
    }
    fn element(&mut self, depth: usize) -> R<El> {
        if depth > 200 {
            return self.err("too deep");
        }
        if !self.eat("<") {
            return self.err("'<' expected");
        }
        let mut e = El { name: self.name()?, ..Default::default() };
        loop {
            let sp = self.ws();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            if !sp {
                return self.err("white space expected");
            }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") {
                return self.err("'=' expected");
            }
            self.ws();
            let q = if self.eat("\"") {
                '"'
            } else if self.eat("'") {
                '\''
            } else {
                return self.err("quote expected");
            };
            let mut v = String::new();
            loop {
                match self.rest().chars().next() {
                    None => return self.err("unterminated attribute"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("'<' in attribute"),
                    Some('&') => self.reference(&mut v)?,
                    Some(c) if is_char(c) => {
                        v.push(c);
                        self.i += c.len_utf8();
                    }
                    _ => return self.err("illegal character"),
                }
            }
            if e.attrs.iter().any(|a| a.0 == n) {
                return self.err("duplicate attribute");
            }
            e.attrs.push((n, v));
        }
        loop {
            let r = self.rest();
            if r.starts_with("</") {
                self.i += 2;
                let n = self.name()?;
                if n != e.name {
                    return self.err(&format!("</{n}> closes <{}>", e.name));
                }
                self.ws();
                if !self.eat(">") {
                    return self.err("'>' expected");
                }
                return Ok(e);
            } else if r.starts_with("<!--") {
                self.comment()?;
            } else if self.eat("<![CDATA[") {
                let Some(k) = self.rest().find("]]>") else { return self.err("unterminated CDATA") };
                e.text.push_str(&self.rest()[..k]);
                self.i += k + 3;
            } else if r.starts_with("<?") {
                let Some(k) = r.find("?>") else { return self.err("unterminated PI") };
                self.i += k + 2;
            } else if r.starts_with('<') {
                e.kids.push(self.element(depth + 1)?);
            } else if r.starts_with('&') {
                self.reference(&mut e.text)?;
            } else if r.starts_with("]]>") {
                return self.err("']]>' in text");
            } else {
                match r.chars().next() {
                    None => return self.err("unexpected end"),
                    Some(c) if is_char(c) => {
                        e.text.push(c);
                        self.i += c.len_utf8();
                    }
                    _ => return self.err("illegal character"),
                }
            }
        }
    }
}
/// XML 1.0 reading, line ends normalised first as the recommendation asks
pub fn parse(s: &str) -> R<El> {
    let s = &s.replace("\r\n", "\n").replace('\r', "\n");
    let mut p = P { s: s.strip_prefix('\u{feff}').unwrap_or(s), i: 0 };
    if p.rest().starts_with("<?xml") {
        match p.rest().find("?>") {
            Some(k) => p.i += k + 2,
            None => return p.err("bad declaration"),
        }
    }
    loop {
        p.ws();
        if !p.comment()? {
            break;
        }
    }
    let e = p.element(0)?;
    loop {
        p.ws();
        if !p.comment()? {
            break;
        }
    }
    if p.rest().is_empty() { Ok(e) } else { p.err("content after the root element") }
}

fn plain_decimal(s: &str) -> bool {
    let t = s.strip_prefix('-').unwrap_or(s);
    let (a, b) = t.split_once('.').map_or((t, None), |(a, b)| (a, Some(b)));
    !a.is_empty() && a.bytes().all(|c| c.is_ascii_digit()) && b.is_none_or(|b| !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit()))
}
fn scalar_matches(n: &Node, t: &str) -> bool {
    match &n.body {
        Body::Num(s) => plain_decimal(t) && t.parse::<f64>().ok() == s.parse::<f64>().ok(),
        Body::Bool(b) => t == if *b { "true" } else { "false" },
        Body::Str(s) | Body::Enum(s) => t == s,
        Body::Struct(_) => false,
    }
}
/// Does `e` state exactly the content of `n`: same elements, same order, same values, nothing else?
pub fn matches(m: &Module, n: &Node, e: &El, at: &str) -> R<()> {
    match &n.body {
        Body::Struct(slots) => {
            let Ty::Ref(t) = n.ty else { unreachable!() };
            let fs = m.fields(t);
            let mut attrs: Vec<(&str, &Node)> = vec![];
            let mut kids: Vec<(&Field, &Node)> = vec![];
            let mut value = None;
            for s in slots {
                let f = &fs[s.field];
                for o in &s.occ {
                    if let Some(a) = f.xml.strip_prefix('@') {
                        attrs.push((a, o));
                    } else if f.xml == "$value" {
                        value = Some(o);
                    } else {
                        kids.push((f, o));
                    }
                }
            }
            if attrs.len() != e.attrs.len() {
                return Err(format!("{at}: attributes {:?}, {} expected", e.attrs, attrs.len()));
            }
            for (a, o) in attrs {
                match e.attrs.iter().find(|x| x.0 == a) {
                    Some(x) if scalar_matches(o, &x.1) => {}
                    x => return Err(format!("{at}/@{a}: expected {:?}, found {x:?}", scalar(o))),
                }
            }
            match value {
                Some(v) => {
                    if !e.kids.is_empty() || !scalar_matches(v, &e.text) {
                        return Err(format!("{at}: expected value {:?}, found {:?}", scalar(v), e.text));
                    }
                }
                None => {
                    if !e.text.trim_matches([' ', '\t', '\r', '\n']).is_empty() {
                        return Err(format!("{at}: stray text {:?}", e.text));
                    }
                    for (k, (f, o)) in kids.iter().enumerate() {
                        match e.kids.get(k) {
                            None => return Err(format!("{at}/{}: missing", f.xml)),
                            Some(x) if x.name != f.xml => return Err(format!("{at}: element {k} should be {}, is {}", f.xml, x.name)),
                            Some(x) => matches(m, o, x, &format!("{at}/{}", f.xml))?,
                        }
                    }
                    if let Some(x) = e.kids.get(kids.len()) {
                        return Err(format!("{at}/{}: unexpected element", x.name));
                    }
                }
            }
            Ok(())
        }
        _ => {
            if !e.attrs.is_empty() || !e.kids.is_empty() || !scalar_matches(n, &e.text) {
                Err(format!("{at}: expected {:?}, found {:?}", scalar(n), e.text))
            } else {
                Ok(())
            }
        }
    }
}
