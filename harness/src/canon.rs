//! Canonical form of a compiled document: every reference resolved to a full
//! name by the Avro specification's rules, every definition recorded in
//! document order, plus the reader that produces it from JSON.
use serde_json::{Map, Value};
use std::collections::{BTreeMap, HashMap};

pub type Attrs = BTreeMap<String, Value>;

#[derive(Clone, Debug, PartialEq)]
pub enum CTy {
    Prim(String, Attrs),
    Named(String),
    Array(Box<CTy>, Attrs),
    Map(Box<CTy>, Attrs),
    Union(Vec<CTy>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct CField {
    pub name: String,
    pub ty: CTy,
    pub doc: Option<String>,
    pub default: Option<Value>,
    pub order: String,
    pub aliases: Vec<String>,
    pub attrs: Attrs,
}
#[derive(Clone, Debug, PartialEq)]
pub struct CDef {
    pub full: String,
    pub kind: String,
    pub doc: Option<String>,
    pub aliases: Vec<String>,
    pub attrs: Attrs,
    pub fields: Vec<CField>,
    pub symbols: Vec<String>,
    pub default: Option<String>,
    pub size: Option<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct CMsg {
    pub doc: Option<String>,
    pub attrs: Attrs,
    pub request: Vec<CField>,
    pub response: CTy,
    pub errors: Vec<CTy>,
    pub oneway: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct CHead {
    pub name: String,
    pub ns: String,
    pub doc: Option<String>,
    pub attrs: Attrs,
}
#[derive(Clone, Debug, Default)]
pub struct CDoc {
    pub head: Option<CHead>,
    /// for a schema document
    pub root: Option<CTy>,
    /// names of the definitions in document order, each with the place that
    /// contains it ("types", "root", the full name of the enclosing definition,
    /// or "message x")
    pub order: Vec<(String, String)>,
    pub defs: HashMap<String, CDef>,
    pub msgs: BTreeMap<String, CMsg>,
    /// references by bare name, inside a namespace, to a type without one
    pub fell_back: usize,
}

/// a difference or malformation, tagged with the aspect it concerns
#[derive(Clone, Debug)]
pub struct Diff {
    pub facet: &'static str,
    pub msg: String,
}
pub fn diff(facet: &'static str, msg: impl Into<String>) -> Diff {
    Diff { facet, msg: msg.into() }
}

pub fn is_prim(s: &str) -> bool {
    matches!(s, "null" | "boolean" | "int" | "long" | "float" | "double" | "bytes" | "string")
}
fn is_complex(s: &str) -> bool {
    matches!(s, "record" | "enum" | "array" | "map" | "union" | "fixed" | "error")
}
pub fn join(ns: &str, n: &str) -> String {
    if ns.is_empty() { n.to_string() } else { format!("{ns}.{n}") }
}
pub fn ns_of(full: &str) -> &str {
    full.rsplit_once('.').map(|x| x.0).unwrap_or("")
}

pub struct Reader {
    pub doc: CDoc,
    pub diffs: Vec<Diff>,
}
/// Normalise the attributes of a decimal so that an omitted scale and an
/// explicit zero compare equal.
pub fn norm_prim(kind: &str, mut a: Attrs) -> Attrs {
    if kind == "bytes" && a.get("logicalType").and_then(|v| v.as_str()) == Some("decimal") {
        let int = |v: Option<&Value>| v.and_then(|v| v.as_f64()).filter(|f| f.fract() == 0.0 && *f >= 0.0 && *f <= i32::MAX as f64).map(|f| f as i64);
        if let Some(p) = int(a.get("precision")) {
            a.insert("precision".into(), p.into());
            match a.get("scale") {
                None => {
                    a.insert("scale".into(), 0.into());
                }
                s => {
                    if let Some(s) = int(s) {
                        a.insert("scale".into(), s.into());
                    }
                }
            }
        }
    }
    a
}
impl Reader {
    pub fn read_protocol(v: &Value) -> (CDoc, Vec<Diff>) {
        let mut r = Reader { doc: CDoc::default(), diffs: vec![] };
        r.protocol(v);
        (r.doc, r.diffs)
    }
    pub fn read_schema(v: &Value) -> (CDoc, Vec<Diff>) {
        let mut r = Reader { doc: CDoc::default(), diffs: vec![] };
        let t = r.ty(v, "", "root");
        r.doc.root = Some(t);
        (r.doc, r.diffs)
    }
    fn bad(&mut self, facet: &'static str, m: String) {
        self.diffs.push(diff(facet, m));
    }
    fn ostr(&mut self, o: &Map<String, Value>, k: &str, at: &str) -> Option<String> {
        match o.get(k) {
            None => None,
            Some(Value::String(s)) => Some(s.clone()),
            Some(v) => {
                self.bad("malformed", format!("`{k}` of {at} is not a string: {v}"));
                None
            }
        }
    }
    fn strs(&mut self, o: &Map<String, Value>, k: &str, at: &str) -> Vec<String> {
        match o.get(k) {
            None => vec![],
            Some(Value::Array(a)) => {
                let mut out = vec![];
                for x in a {
                    match x {
                        Value::String(s) => out.push(s.clone()),
                        v => self.bad("malformed", format!("element of `{k}` of {at} is not a string: {v}")),
                    }
                }
                out
            }
            Some(v) => {
                self.bad("malformed", format!("`{k}` of {at} is not an array: {v}"));
                vec![]
            }
        }
    }
    fn rest(o: &Map<String, Value>, known: &[&str]) -> Attrs {
        o.iter().filter(|(k, _)| !known.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
    fn protocol(&mut self, v: &Value) {
        let Some(o) = v.as_object() else {
            return self.bad("malformed", format!("protocol output is not an object: {v}"));
        };
        let name = self.ostr(o, "protocol", "protocol").unwrap_or_default();
        let ns = self.ostr(o, "namespace", "protocol").unwrap_or_default();
        let doc = self.ostr(o, "doc", "protocol");
        let attrs = Self::rest(o, &["protocol", "namespace", "doc", "types", "messages"]);
        self.doc.head = Some(CHead { name, ns: ns.clone(), doc, attrs });
        match o.get("types") {
            Some(Value::Array(a)) => {
                for t in a {
                    if !t.is_object() {
                        self.bad("define-once", format!("entry of `types` is not a definition: {t}"));
                        continue;
                    }
                    let n0 = self.doc.order.len();
                    let c = self.ty(t, &ns, "types");
                    if !matches!(&c, CTy::Named(_)) || self.doc.order.len() == n0 {
                        self.bad("define-once", format!("entry of `types` is not a named definition: {t}"));
                    }
                }
            }
            x => self.bad("malformed", format!("`types` is {x:?}")),
        }
        match o.get("messages") {
            Some(Value::Object(m)) => {
                for (k, v) in m {
                    let Some(mo) = v.as_object() else {
                        self.bad("malformed", format!("message {k} is not an object"));
                        continue;
                    };
                    let at = format!("message {k}");
                    let doc = self.ostr(mo, "doc", &at);
                    let request = match mo.get("request") {
                        Some(Value::Array(a)) => a.iter().map(|f| self.field(f, &ns, &at)).collect(),
                        x => {
                            self.bad("malformed", format!("`request` of {at} is {x:?}"));
                            vec![]
                        }
                    };
                    let response = match mo.get("response") {
                        Some(r) => self.ty(r, &ns, &at),
                        None => {
                            self.bad("malformed", format!("{at} has no response"));
                            CTy::Prim("null".into(), Attrs::new())
                        }
                    };
                    let errors = match mo.get("errors") {
                        None => vec![],
                        Some(Value::Array(a)) => a.iter().map(|e| self.ty(e, &ns, &at)).collect(),
                        Some(x) => {
                            self.bad("malformed", format!("`errors` of {at} is {x}"));
                            vec![]
                        }
                    };
                    let oneway = match mo.get("one-way") {
                        None => false,
                        Some(Value::Bool(b)) => *b,
                        Some(x) => {
                            self.bad("malformed", format!("`one-way` of {at} is {x}"));
                            false
                        }
                    };
                    let attrs = Self::rest(mo, &["doc", "request", "response", "errors", "one-way"]);
                    self.doc.msgs.insert(k.clone(), CMsg { doc, attrs, request, response, errors, oneway });
                }
            }
            x => self.bad("malformed", format!("`messages` is {x:?}")),
        }
    }
    fn field(&mut self, v: &Value, ns: &str, at: &str) -> CField {
        let empty = Map::new();
        let o = match v.as_object() {
            Some(o) => o,
            None => {
                self.bad("malformed", format!("field of {at} is not an object: {v}"));
                &empty
            }
        };
        let name = match self.ostr(o, "name", at) {
            Some(n) => n,
            None => {
                self.bad("malformed", format!("field of {at} has no name"));
                String::new()
            }
        };
        let here = format!("{at}.{name}");
        let ty = match o.get("type") {
            Some(t) => self.ty(t, ns, at),
            None => {
                self.bad("malformed", format!("{here} has no type"));
                CTy::Prim("null".into(), Attrs::new())
            }
        };
        let order = self.ostr(o, "order", &here).unwrap_or_else(|| "ascending".into());
        if !matches!(order.as_str(), "ascending" | "descending" | "ignore") {
            self.bad("malformed", format!("order of {here} is {order}"));
        }
        CField {
            doc: self.ostr(o, "doc", &here),
            aliases: self.strs(o, "aliases", &here),
            default: o.get("default").cloned(),
            attrs: Self::rest(o, &["name", "type", "doc", "default", "order", "aliases"]),
            name,
            ty,
            order,
        }
    }
    fn ty(&mut self, v: &Value, ns: &str, at: &str) -> CTy {
        match v {
            Value::String(s) => {
                if is_prim(s) {
                    return CTy::Prim(s.clone(), Attrs::new());
                }
                if s.contains('.') {
                    if !self.doc.defs.contains_key(s) {
                        self.bad("undefined-use", format!("`{s}` used in {at} before any definition"));
                    }
                    return CTy::Named(s.clone());
                }
                if is_complex(s) && s != "error" {
                    self.bad("names", format!("reference `{s}` in {at} is an Avro type keyword"));
                }
                let full = join(ns, s);
                if self.doc.defs.contains_key(&full) {
                    return CTy::Named(full);
                }
                // A type without namespace can only be referred to by its bare name.
                if self.doc.defs.contains_key(s) {
                    self.doc.fell_back += 1;
                    return CTy::Named(s.clone());
                }
                self.bad("undefined-use", format!("`{s}` (in namespace `{ns}`) used in {at} before any definition"));
                CTy::Named(full)
            }
            Value::Array(a) => {
                let ts: Vec<CTy> = a.iter().map(|t| self.ty(t, ns, at)).collect();
                if ts.iter().any(|t| matches!(t, CTy::Union(_))) {
                    self.bad("types", format!("union directly inside a union in {at}"));
                }
                CTy::Union(ts)
            }
            Value::Object(o) => {
                let Some(k) = o.get("type").and_then(|t| t.as_str()) else {
                    self.bad("malformed", format!("schema object without type name in {at}: {v}"));
                    return CTy::Prim("null".into(), Attrs::new());
                };
                match k {
                    "record" | "error" | "enum" | "fixed" => self.def(k, o, ns, at),
                    "array" => {
                        let t = match o.get("items") {
                            Some(t) => self.ty(t, ns, at),
                            None => {
                                self.bad("malformed", format!("array without items in {at}"));
                                CTy::Prim("null".into(), Attrs::new())
                            }
                        };
                        CTy::Array(Box::new(t), Self::rest(o, &["type", "items"]))
                    }
                    "map" => {
                        let t = match o.get("values") {
                            Some(t) => self.ty(t, ns, at),
                            None => {
                                self.bad("malformed", format!("map without values in {at}"));
                                CTy::Prim("null".into(), Attrs::new())
                            }
                        };
                        CTy::Map(Box::new(t), Self::rest(o, &["type", "values"]))
                    }
                    p if is_prim(p) => CTy::Prim(p.into(), norm_prim(p, Self::rest(o, &["type"]))),
                    other => {
                        self.bad("malformed", format!("unknown type `{other}` in {at}"));
                        CTy::Prim("null".into(), Attrs::new())
                    }
                }
            }
            _ => {
                self.bad("malformed", format!("not a schema in {at}: {v}"));
                CTy::Prim("null".into(), Attrs::new())
            }
        }
    }
    fn def(&mut self, k: &str, o: &Map<String, Value>, ns: &str, at: &str) -> CTy {
        let name = self.ostr(o, "name", at).unwrap_or_default();
        let full = if name.contains('.') {
            name.clone()
        } else {
            match self.ostr(o, "namespace", &name) {
                Some(n) => join(&n, &name),
                None => join(ns, &name),
            }
        };
        if self.doc.defs.contains_key(&full) {
            self.bad("define-once", format!("`{full}` is defined again in {at}"));
        }
        let myns = ns_of(&full).to_string();
        let aliases: Vec<String> = self
            .strs(o, "aliases", &full)
            .into_iter()
            .map(|a| if a.contains('.') { a } else { join(&myns, &a) })
            .collect();
        let mut d = CDef {
            full: full.clone(),
            kind: k.into(),
            doc: self.ostr(o, "doc", &full),
            aliases,
            attrs: Attrs::new(),
            fields: vec![],
            symbols: vec![],
            default: None,
            size: None,
        };
        self.doc.order.push((full.clone(), at.into()));
        let mut known = vec!["type", "name", "namespace", "doc", "aliases"];
        match k {
            "record" | "error" => known.push("fields"),
            "enum" => known.extend(["symbols", "default"]),
            _ => known.push("size"),
        }
        d.attrs = Self::rest(o, &known);
        // the name is in scope inside its own definition
        self.doc.defs.insert(full.clone(), d.clone());
        match k {
            "record" | "error" => match o.get("fields") {
                Some(Value::Array(a)) => d.fields = a.iter().map(|f| self.field(f, &myns, &full)).collect(),
                x => self.bad("malformed", format!("`fields` of {full} is {x:?}")),
            },
            "enum" => {
                d.symbols = self.strs(o, "symbols", &full);
                if !o.contains_key("symbols") {
                    self.bad("malformed", format!("{full} has no symbols"));
                }
                d.default = self.ostr(o, "default", &full);
            }
            _ => {
                d.size = o.get("size").and_then(|s| s.as_u64());
                if d.size.is_none() {
                    self.bad("malformed", format!("size of {full} is {:?}", o.get("size")));
                }
            }
        }
        self.doc.defs.insert(full.clone(), d);
        CTy::Named(full)
    }
}

fn cmp<T: PartialEq + std::fmt::Debug>(out: &mut Vec<Diff>, facet: &'static str, what: &str, want: &T, got: &T) {
    if want != got {
        let cut = |s: String| if s.len() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s };
        out.push(diff(facet, format!("{what}: expected {}, got {}", cut(format!("{want:?}")), cut(format!("{got:?}")))));
    }
}
/// Compare two types: shape differences are "types", attribute differences are
/// "props" except those of recognised logical types, which are "types" too.
pub fn cmp_ty(out: &mut Vec<Diff>, what: &str, w: &CTy, g: &CTy) {
    fn attrs(out: &mut Vec<Diff>, what: &str, w: &Attrs, g: &Attrs) {
        let lt = |a: &Attrs| -> Vec<Option<Value>> { ["logicalType", "precision", "scale"].iter().map(|k| a.get(*k).cloned()).collect() };
        cmp(out, "types", &format!("{what} logical type"), &lt(w), &lt(g));
        let rest = |a: &Attrs| -> Attrs { a.iter().filter(|(k, _)| !["logicalType", "precision", "scale"].contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect() };
        cmp(out, "props", &format!("{what} type attributes"), &rest(w), &rest(g));
    }
    match (w, g) {
        (CTy::Prim(a, x), CTy::Prim(b, y)) if a == b => attrs(out, what, x, y),
        (CTy::Named(a), CTy::Named(b)) => cmp(out, "names", &format!("{what} reference"), a, b),
        (CTy::Array(a, x), CTy::Array(b, y)) => {
            attrs(out, what, x, y);
            cmp_ty(out, &format!("{what}[]"), a, b);
        }
        (CTy::Map(a, x), CTy::Map(b, y)) => {
            attrs(out, what, x, y);
            cmp_ty(out, &format!("{what}{{}}"), a, b);
        }
        (CTy::Union(a), CTy::Union(b)) if a.len() == b.len() => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                cmp_ty(out, &format!("{what}|{i}"), x, y);
            }
        }
        _ => cmp(out, "types", what, w, g),
    }
}
fn cmp_fields(out: &mut Vec<Diff>, what: &str, facet: &'static str, w: &[CField], g: &[CField]) {
    let names = |f: &[CField]| f.iter().map(|x| x.name.clone()).collect::<Vec<_>>();
    cmp(out, facet, &format!("{what} names and order"), &names(w), &names(g));
    for (a, b) in w.iter().zip(g) {
        if a.name != b.name {
            break;
        }
        let at = format!("{what}.{}", a.name);
        cmp_ty(out, &format!("{at} type"), &a.ty, &b.ty);
        cmp(out, "docs", &format!("{at} doc"), &a.doc, &b.doc);
        cmp(out, "defaults", &format!("{at} default"), &a.default, &b.default);
        cmp(out, "order", &format!("{at} order"), &a.order, &b.order);
        cmp(out, "aliases", &format!("{at} aliases"), &a.aliases, &b.aliases);
        cmp(out, "props", &format!("{at} attributes"), &a.attrs, &b.attrs);
    }
}
pub fn cmp_def(out: &mut Vec<Diff>, w: &CDef, g: &CDef) {
    let at = &w.full;
    cmp(out, "structure", &format!("{at} kind"), &w.kind, &g.kind);
    cmp(out, "docs", &format!("{at} doc"), &w.doc, &g.doc);
    cmp(out, "type-aliases", &format!("{at} aliases"), &w.aliases, &g.aliases);
    cmp(out, "props", &format!("{at} attributes"), &w.attrs, &g.attrs);
    cmp(out, "structure", &format!("{at} symbols"), &w.symbols, &g.symbols);
    cmp(out, "structure", &format!("{at} enum default"), &w.default, &g.default);
    cmp(out, "structure", &format!("{at} size"), &w.size, &g.size);
    cmp_fields(out, &format!("{at} fields"), "structure", &w.fields, &g.fields);
}
pub fn cmp_msg(out: &mut Vec<Diff>, k: &str, w: &CMsg, g: &CMsg) {
    let at = format!("message {k}");
    cmp(out, "docs", &format!("{at} doc"), &w.doc, &g.doc);
    cmp(out, "props", &format!("{at} attributes"), &w.attrs, &g.attrs);
    cmp(out, "messages", &format!("{at} one-way"), &w.oneway, &g.oneway);
    cmp(out, "messages", &format!("{at} errors"), &w.errors, &g.errors);
    let n = out.len();
    cmp_ty(out, &format!("{at} response"), &w.response, &g.response);
    cmp_fields(out, &at, "messages", &w.request, &g.request);
    // any difference within a message is also a difference of its signature
    let extra: Vec<Diff> = out[n..].iter().map(|d| diff("messages", d.msg.clone())).collect();
    out.extend(extra);
}
/// Compare the sets of definitions and their contents, not their placement.
pub fn cmp_defs(out: &mut Vec<Diff>, w: &CDoc, g: &CDoc) {
    let mut wk: Vec<_> = w.defs.keys().collect();
    wk.sort();
    for k in &wk {
        match g.defs.get(*k) {
            None => out.push(diff("missing", format!("type {k} is missing"))),
            Some(d) => cmp_def(out, &w.defs[*k], d),
        }
    }
    let mut gk: Vec<_> = g.defs.keys().collect();
    gk.sort();
    for k in gk {
        if !w.defs.contains_key(k) {
            out.push(diff("missing", format!("type {k} was never declared")));
        }
    }
}
pub fn cmp_msgs(out: &mut Vec<Diff>, w: &CDoc, g: &CDoc) {
    let n = |d: &CDoc| d.msgs.keys().cloned().collect::<Vec<_>>();
    cmp(out, "messages", "message names", &n(w), &n(g));
    for (k, m) in &w.msgs {
        if let Some(x) = g.msgs.get(k) {
            cmp_msg(out, k, m, x);
        }
    }
}
pub fn cmp_doc(w: &CDoc, g: &CDoc) -> Vec<Diff> {
    let mut out = vec![];
    match (&w.head, &g.head) {
        (Some(a), Some(b)) => {
            cmp(&mut out, "header", "protocol name", &a.name, &b.name);
            cmp(&mut out, "names", "protocol namespace", &a.ns, &b.ns);
            cmp(&mut out, "docs", "protocol doc", &a.doc, &b.doc);
            cmp(&mut out, "props", "protocol attributes", &a.attrs, &b.attrs);
        }
        (a, b) => cmp(&mut out, "header", "document kind", &a.is_some(), &b.is_some()),
    }
    if let (Some(a), Some(b)) = (&w.root, &g.root) {
        cmp_ty(&mut out, "main schema", a, b);
    }
    cmp_defs(&mut out, w, g);
    cmp_msgs(&mut out, w, g);
    cmp(&mut out, "placement", "definitions in document order (name, container)", &w.order, &g.order);
    out
}
