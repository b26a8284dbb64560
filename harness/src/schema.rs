//! Reference schema (specification): committed in /verif/schema/schema.json, extracted once from the
//! pinned commit and audited; it never changes with the code under test.
use serde_json::Value;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Card {
    Req,
    Opt,
    Vec,
    OptVec,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prim {
    Str,
    Num,
    Bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Prim(Prim),
    Ref(usize),
}
#[derive(Debug)]
pub struct Field {
    pub xml: String,
    pub card: Card,
    pub ty: Ty,
    pub len: Option<(Option<usize>, Option<usize>)>,
    pub pattern: Option<usize>,
    /// optional groups may be skipped by a configuration that does not validate optional content
    pub optional_group: bool,
}
#[derive(Debug)]
pub enum Kind {
    Enum(Vec<String>),
    Struct(Vec<Field>),
}
#[derive(Debug)]
pub struct Type {
    pub name: String,
    pub kind: Kind,
}
#[derive(Debug)]
pub struct Module {
    pub name: String,
    pub types: Vec<Type>,
    pub root: usize,
    pub index: HashMap<String, usize>,
}
pub struct Pattern {
    pub src: String,
    pub full: regex::Regex,
    pub hir: regex_syntax::hir::Hir,
}
pub struct Schema {
    pub docs: Vec<Module>,
    pub hdrs: Vec<Module>,
    pub patterns: Vec<Pattern>,
}

impl Schema {
    pub fn load() -> Schema {
        let v: Value = serde_json::from_str(include_str!("../../schema/schema.json")).unwrap();
        let mut patterns: Vec<Pattern> = vec![];
        let mut pidx: HashMap<String, usize> = HashMap::new();
        let mut load_group = |g: &Value| -> Vec<Module> {
            let mut out = vec![];
            for (mname, types) in g.as_object().unwrap() {
                let tobj = types.as_object().unwrap();
                let index: HashMap<String, usize> = tobj.keys().enumerate().map(|(i, k)| (k.clone(), i)).collect();
                let mut used = vec![false; tobj.len()];
                let mut tv = vec![];
                for (tn, t) in tobj {
                    let kind = if t["kind"] == "enum" {
                        Kind::Enum(t["values"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect())
                    } else {
                        let mut fs = vec![];
                        for f in t["fields"].as_array().unwrap() {
                            let ty = match f["type"].as_str().unwrap() {
                                "String" => Ty::Prim(Prim::Str),
                                "f64" => Ty::Prim(Prim::Num),
                                "bool" => Ty::Prim(Prim::Bool),
                                r => {
                                    used[index[r]] = true;
                                    Ty::Ref(index[r])
                                }
                            };
                            let pattern = f.get("pattern").map(|p| {
                                let s = p.as_str().unwrap();
                                *pidx.entry(s.to_string()).or_insert_with(|| {
                                    patterns.push(Pattern {
                                        src: s.to_string(),
                                        full: regex::Regex::new(&format!("^(?:{s})$")).unwrap(),
                                        hir: regex_syntax::Parser::new().parse(s).unwrap(),
                                    });
                                    patterns.len() - 1
                                })
                            });
                            fs.push(Field {
                                xml: f["xml"].as_str().unwrap().to_string(),
                                card: match f["card"].as_str().unwrap() {
                                    "req" => Card::Req,
                                    "opt" => Card::Opt,
                                    "vec" => Card::Vec,
                                    _ => Card::OptVec,
                                },
                                ty,
                                len: f.get("len").map(|l| (l[0].as_u64().map(|x| x as usize), l[1].as_u64().map(|x| x as usize))),
                                pattern,
                                optional_group: f.get("gated").is_some_and(|g| g == true),
                            });
                        }
                        Kind::Struct(fs)
                    };
                    tv.push(Type { name: tn.clone(), kind });
                }
                let root = used.iter().position(|u| !u).unwrap();
                out.push(Module { name: mname.clone(), types: tv, root, index });
            }
            out
        };
        let docs = load_group(&v["documents"]);
        let hdrs = load_group(&v["headers"]);
        Schema { docs, hdrs, patterns }
    }
    pub fn doc(&self, name: &str) -> &Module {
        self.docs.iter().find(|m| m.name == name).unwrap()
    }
    pub fn hdr(&self, name: &str) -> &Module {
        self.hdrs.iter().find(|m| m.name == name).unwrap()
    }
}
impl Module {
    pub fn fields(&self, t: usize) -> &[Field] {
        match &self.types[t].kind {
            Kind::Struct(f) => f,
            _ => &[],
        }
    }
    /// names along a path of field indices
    pub fn names(&self, p: &[usize]) -> String {
        let mut t = self.root;
        let mut o = String::new();
        for i in p {
            let f = &self.fields(t)[*i];
            if !o.is_empty() {
                o.push('.');
            }
            o.push_str(&f.xml);
            if let Ty::Ref(r) = f.ty {
                t = r;
            }
        }
        o
    }
    pub fn field_at(&self, p: &[usize]) -> &Field {
        let mut t = self.root;
        for (k, i) in p.iter().enumerate() {
            let f = &self.fields(t)[*i];
            if k + 1 == p.len() {
                return f;
            }
            if let Ty::Ref(r) = f.ty {
                t = r;
            }
        }
        unreachable!()
    }
    pub fn is_enum(&self, t: usize) -> bool {
        matches!(self.types[t].kind, Kind::Enum(_))
    }
    /// Every element path below the root, as a list of field indices (an "edge" per step).
    pub fn all_paths(&self) -> Vec<Vec<usize>> {
        let mut out = vec![];
        fn go(m: &Module, t: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            for (i, f) in m.fields(t).iter().enumerate() {
                cur.push(i);
                out.push(cur.clone());
                if let Ty::Ref(r) = f.ty {
                    go(m, r, cur, out);
                }
                cur.pop();
            }
        }
        go(self, self.root, &mut vec![], &mut out);
        out
    }
}
