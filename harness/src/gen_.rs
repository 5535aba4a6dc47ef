//! Random generation of valid worlds.
use crate::ast::*;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub types: (usize, usize),
    pub fields: (usize, usize),
    pub symbols: (usize, usize),
    pub vars: usize,
    pub depth: usize,
    pub msgs: (usize, usize),
    pub namespaces: (usize, usize),
    pub idl_imports: (usize, usize),
    pub json_imports: (usize, usize),
    pub p_doc: u32,
    pub p_prop: u32,
    pub p_default: u32,
    pub p_alias: u32,
    pub p_kw: u32,
    pub p_unicode: u32,
    /// percentage of references among leaf types
    pub p_ref: u32,
    /// protocol, schema, named-only weights
    pub mode: (u32, u32, u32),
    pub null_ns: u32,
    /// only refer to types defined earlier (and never to oneself)
    pub backward_only: bool,
}
impl Cfg {
    pub fn small() -> Cfg {
        Cfg {
            types: (1, 6),
            fields: (0, 5),
            symbols: (1, 5),
            vars: 3,
            depth: 3,
            msgs: (0, 3),
            namespaces: (1, 3),
            idl_imports: (0, 0),
            json_imports: (0, 0),
            p_doc: 20,
            p_prop: 15,
            p_default: 35,
            p_alias: 10,
            p_kw: 8,
            p_unicode: 8,
            p_ref: 45,
            mode: (70, 30, 0),
            null_ns: 20,
            backward_only: false,
        }
    }
    pub fn imports() -> Cfg {
        Cfg { types: (3, 10), fields: (0, 4), idl_imports: (0, 4), json_imports: (0, 3), ..Cfg::small() }
    }
    pub fn big() -> Cfg {
        Cfg { types: (10, 30), fields: (3, 12), symbols: (1, 30), depth: 5, msgs: (0, 10), ..Cfg::small() }
    }
}

const SIMPLE: &[&str] = &["A", "B", "C", "D", "Node", "Item", "Status", "Key", "T1", "T2", "_x", "a", "Rec_2", "Money", "Hash"];
const UNI: &[&str] = &["Gr\u{f6}\u{df}e", "\u{540d}\u{524d}", "\u{3b1}\u{3b2}", "\u{d1}and\u{fa}", "na\u{ef}ve"];
const KWTYPES: &[&str] = &["record", "enum", "fixed", "array", "map", "union", "protocol", "error", "schema", "idl", "import", "throws", "oneway", "void", "namespace", "decimal"];
const FIELDS: &[&str] = &["a", "b", "c", "id", "value", "next", "left", "right", "count", "name", "f1", "f2", "f3", "_u", "camelCase", "UPPER", "x9", "data", "list", "other"];
const SYMS: &[&str] = &["RED", "GREEN", "BLUE", "A", "B", "C", "X1", "X2", "ON", "OFF", "_", "lower", "Mixed_1"];
const NSS: &[&str] = &["a", "a.b", "org.example.v1", "b.a", "x.record.y", "com.acme", "a.b.c", "z_1"];

pub fn ident(r: &mut Rng, pool: &[&str], kws: &[&str], cfg: &Cfg) -> String {
    if r.chance(cfg.p_kw) {
        return r.pick(kws).to_string();
    }
    if r.chance(cfg.p_unicode) {
        return r.pick(UNI).to_string();
    }
    if r.chance(25) {
        return format!("{}{}", r.pick(pool), r.below(40));
    }
    r.pick(pool).to_string()
}
/// A name that differs from one of these in its letters' case alone, or by one more letter.
fn twin<'a>(r: &mut Rng, used: impl Iterator<Item = &'a String>) -> String {
    let mut of: Vec<&String> = used.collect();
    of.sort();
    let n = *r.pick(&of);
    match r.below(4) {
        0 => n.to_uppercase(),
        1 => n.to_lowercase(),
        2 => n.chars().map(|c| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() }).collect(),
        _ => format!("{n}{}", r.pick(&["_", "s", "1"])),
    }
}
fn uniq(r: &mut Rng, pool: &[&str], kws: &[&str], cfg: &Cfg, used: &mut HashSet<String>) -> String {
    for i in 0.. {
        let mut n = ident(r, pool, kws, cfg);
        if i == 0 && !used.is_empty() && r.chance(4) {
            n = twin(r, used.iter());
        }
        if i > 20 {
            n = format!("{n}_{}", r.below(100000));
        }
        if used.insert(n.clone()) {
            return n;
        }
    }
    unreachable!()
}

pub fn string(r: &mut Rng) -> String {
    let atoms: &[&str] = &[
        "a", "foo", " ", "\u{e9}", "\u{4f60}", "\u{1F600}", "\\", "\"", "'", "/", "\n", "\t", "\r", "\u{8}", "\u{c}", "\u{0}",
        "\u{1f}", "\u{7f}", "$1", "\\u0041", "//", "/*", "*/", "`", "@", "{", "}", "<", "0", "7", "\u{80}", "\u{ff}", "\u{ffff}", "\u{d7ff}", "null",
    ];
    let n = r.below(6);
    (0..n).map(|_| *r.pick(atoms)).collect()
}
pub fn int(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => r.below(10) as i64,
        2 => -(r.below(1000) as i64),
        3 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, u32::MAX as i64, 1 << 53, (1 << 53) + 1]),
        4 => *r.pick(&[i64::MAX, i64::MIN + 1, i64::MAX - 1, -(1 << 53) - 1]),
        5 => r.u64() as i32 as i64,
        6 => (r.u64() >> r.below(63)) as i64 & i64::MAX,
        _ => r.range(1, 100) as i64,
    }
}
/// A number that serde_json reads back exactly (it is off by one unit in the last
/// place for some; that is a known finding of its own, see m_lit.rs).
pub fn float(r: &mut Rng) -> f64 {
    loop {
        let f = any_float(r);
        let s = serde_json::to_string(&f).unwrap();
        if s == "null" || serde_json::from_str::<Value>(&s).ok().and_then(|v| v.as_f64()).map(f64::to_bits) == Some(f.to_bits()) {
            return f;
        }
    }
}
pub fn any_float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => 1.5,
        2 => -0.1,
        3 => *r.pick(&[1e308, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1e23, 0.1, 123456789012345680.0]),
        4 => r.below(1000) as f64,
        5 => (r.u64() as i32) as f64 / 1024.0,
        6 => {
            let f = f64::from_bits(r.u64());
            if f.is_finite() { f } else { 2.5 }
        }
        _ => 100.0,
    }
}
pub fn value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 7 } else { 10 }) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(50)),
        2 | 3 => int(r).into(),
        4 => Value::from(float(r)),
        5 | 6 => string(r).into(),
        7 | 8 => (0..r.below(4)).map(|_| value(r, depth - 1)).collect(),
        _ => Value::Object((0..r.below(4)).map(|i| (format!("{}{}", ["k", "type", "name", "\u{e9} k", "a.b"][r.below(5)], i), value(r, depth - 1))).collect()),
    }
}
pub fn doc_text(r: &mut Rng) -> String {
    let words: &[&str] = &[
        "The", "record.", "caf\u{e9}", "\u{4f60}\u{597d}", "\u{1F600}", "a", "b*c", "$1", "\\n", "\"quoted\"", "@param x", "{@link Y}", "//", "x", "<b>", "1 < 2", "// see", "it's",
        "/* inner", "e=mc^2", "a  b", "tab\there", "#", "100%", "\\", "`T`", "foo;",
    ];
    let line = |r: &mut Rng| -> String {
        let n = r.range(1, 5);
        (0..n).map(|_| *r.pick(words)).collect::<Vec<_>>().join(" ")
    };
    let n = if r.chance(50) { 1 } else { r.range(2, 5) };
    let mut ls: Vec<String> = vec![];
    for i in 0..n {
        let l = if i > 1 && i + 1 < n && r.chance(30) {
            // a blank line, sometimes of spaces: fewer than any layout indents by
            " ".repeat(r.below(3))
        } else if i > 1 && r.chance(20) {
            format!("{}{}", [" ", "  ", "    "][r.below(3)], line(r))
        } else {
            line(r)
        };
        ls.push(l);
    }
    ls.join("\n")
}
/// A description in a JSON file is any string.
pub fn json_doc(r: &mut Rng, text: &str) -> String {
    let pre = ["", "", " ", "\n", "\t", "* ", "  * ", "/** ", "\u{a0}"];
    let post = ["", "", " ", "\n", "\n\n", "\t", " */", "*/", "\\", "\r\n", "\u{3000}", "\n   "];
    match r.below(12) {
        0 => String::new(),
        1 => " ".into(),
        2 => string(r),
        3 => format!("{text}\n    {text}\n    * {text}"),
        4 => format!("* {text}\n * {text}"),
        5..=8 => format!("{}{text}{}", r.pick(&pre), r.pick(&post)),
        _ => text.to_string(),
    }
}
fn json_docs(r: &mut Rng, d: &mut TypeDecl) {
    let one = |r: &mut Rng, d: &mut Option<Doc>| {
        if let Some(d) = d {
            d.text = json_doc(r, &d.text);
        }
    };
    one(r, &mut d.doc);
    if let Body::Record { fields, .. } = &mut d.body {
        for f in fields {
            one(r, &mut f.doc);
            for v in &mut f.vars {
                one(r, &mut v.doc);
            }
        }
    }
}
pub fn doc(r: &mut Rng, p: u32) -> Option<Doc> {
    if r.chance(p) { Some(Doc { text: doc_text(r), layout: r.below(6) as u8 }) } else { None }
}

const STRUCT: &[&str] = &["doc", "fields", "items", "name", "namespace", "size", "symbols", "values", "type", "aliases", "default", "order", "protocol", "messages", "types", "errors", "response", "request", "one-way"];
pub fn reserved(ctx: &str) -> &'static [&'static str] {
    match ctx {
        "protocol" => &["namespace", "protocol", "doc", "messages", "types", "errors"],
        "record" | "fixed" | "type" => &["doc", "fields", "items", "name", "namespace", "size", "symbols", "values", "type", "aliases"],
        "enum" => &["doc", "fields", "items", "name", "namespace", "size", "symbols", "values", "type", "aliases", "default"],
        "var" => &["default", "doc", "name", "order", "type", "aliases"],
        "msg" => &["doc", "response", "request", "errors", "one-way"],
        _ => unreachable!(),
    }
}
/// Random annotations allowed in a context (no logical types).
pub fn props(r: &mut Rng, p: u32, ctx: &str) -> Props {
    let mut v = vec![];
    while r.chance(p) && v.len() < 5 {
        let name = if r.chance(25) {
            let ok: Vec<&&str> = STRUCT.iter().filter(|s| !reserved(ctx).contains(s)).collect();
            r.pick(&ok).to_string()
        } else {
            r.pick(&["x", "foo", "java-class", "a.b", "since", "Foo", "x1", "\u{e9}t\u{e9}", "record", "int", "true", "deprecated", "sql.type"]).to_string()
        };
        v.push((name, value(r, 2)));
    }
    if !v.is_empty() && r.chance(10) {
        let n = v[r.below(v.len())].0.clone();
        v.push((n, value(r, 1)));
    }
    v
}
const LOGICALS: &[(&str, &str)] = &[
    ("int", "date"), ("int", "time-millis"), ("long", "time-micros"), ("long", "timestamp-millis"), ("long", "timestamp-micros"),
    ("long", "local-timestamp-millis"), ("long", "local-timestamp-micros"), ("string", "uuid"), ("bytes", "decimal"),
];
/// Annotations on a type expression, sometimes naming a logical type.
fn type_props(r: &mut Rng, p: u32, k: &TyK) -> Props {
    let mut v = props(r, p, "type");
    let base = match k {
        TyK::Prim(b) => Some(*b),
        TyK::Opt(i) => match &i.k {
            TyK::Prim(b) => Some(*b),
            _ => None,
        },
        TyK::Array(_) | TyK::Map(_) => Some("array"),
        _ => None,
    };
    if let Some(b) = base {
        if r.chance(p) {
            let own: Vec<&str> = LOGICALS.iter().filter(|x| x.0 == b).map(|x| x.1).collect();
            let l = if !own.is_empty() && r.chance(70) { r.pick(&own).to_string() } else { r.pick(&["date", "uuid", "decimal", "duration", "timestamp-micros", "custom", "time-millis"]).to_string() };
            v.push(("logicalType".into(), if r.chance(4) { json!(5) } else { l.clone().into() }));
            if l == "decimal" || r.chance(10) {
                let pr = r.range(1, 40) as i64;
                v.push(("precision".into(), pr.into()));
                if r.chance(60) {
                    v.push(("scale".into(), (r.below(pr as usize + 1) as i64).into()));
                }
            }
            r.shuffle(&mut v);
            // duplicates must keep their relative order: drop them instead
            let mut seen = HashSet::new();
            v.retain(|x| seen.insert(x.0.clone()));
        }
    }
    v
}

pub struct G<'a> {
    pub cfg: &'a Cfg,
    pub r: Rng,
    /// every declared name with what it is
    pub names: Vec<(Name, char)>,
    /// in a JSON file, where a null-namespace type can be named from anywhere
    pub json: bool,
}
fn key(t: &Ty) -> String {
    match &t.k {
        TyK::Prim(p) => p.to_string(),
        TyK::Kw(k) => crate::render::kw_schema(k).0.to_string(),
        TyK::Decimal(..) => "bytes".into(),
        TyK::Ref(n) => n.full(),
        TyK::Array(_) => "array".into(),
        TyK::Map(_) => "map".into(),
        _ => "union".into(),
    }
}
impl<'a> G<'a> {
    /// Can type i be named where the namespace is ns? In a namespace, IDL has no
    /// notation for a null-namespace type, and JSON output none if the namespace
    /// has a type of that name.
    fn nameable(&self, i: usize, ns: &str) -> bool {
        let n = &self.names[i].0;
        n.ns == ns || !n.ns.is_empty() || self.json && !self.names.iter().any(|(o, _)| o.ns == ns && o.name == n.name)
    }
    pub fn leaf(&mut self, ns: &str, vis: &[usize]) -> Ty {
        let refs: Vec<usize> = vis.iter().copied().filter(|i| self.nameable(*i, ns)).collect();
        if !refs.is_empty() && self.r.chance(self.cfg.p_ref) {
            let i = *self.r.pick(&refs);
            return Ty::of(TyK::Ref(self.names[i].0.clone()));
        }
        let k = match self.r.below(10) {
            0..=5 => TyK::Prim(self.r.pick(PRIMS)),
            6 | 7 => TyK::Kw(self.r.pick(KWS)),
            8 => {
                let p = self.r.range(1, 60) as u32;
                TyK::Decimal(p, if self.r.chance(70) { Some(self.r.below(p as usize + 1) as u32) } else { None })
            }
            _ => TyK::Prim("string"),
        };
        let props = if self.r.chance(50) { vec![] } else { type_props(&mut self.r, self.cfg.p_prop, &k) };
        Ty { props, k }
    }
    pub fn ty(&mut self, ns: &str, vis: &[usize], depth: usize, in_union: bool) -> Ty {
        if depth == 0 || self.r.chance(35) {
            let l = self.leaf(ns, vis);
            if !in_union && self.r.chance(25) && !matches!(l.k, TyK::Prim("null")) {
                let k = TyK::Opt(Box::new(Ty::of(l.k)));
                let props = if let TyK::Opt(i) = &k {
                    if matches!(i.k, TyK::Ref(_)) { vec![] } else { type_props(&mut self.r, self.cfg.p_prop, &k) }
                } else {
                    vec![]
                };
                return Ty { props, k };
            }
            return l;
        }
        let k = match self.r.below(if in_union { 2 } else { 3 }) {
            0 => TyK::Array(Box::new(self.ty(ns, vis, depth - 1, false))),
            1 => TyK::Map(Box::new(self.ty(ns, vis, depth - 1, false))),
            _ => {
                let n = self.r.range(1, 5);
                let mut seen = HashSet::new();
                let mut ts = vec![];
                for _ in 0..n {
                    let t = self.ty(ns, vis, depth - 1, true);
                    if seen.insert(key(&t)) {
                        ts.push(t);
                    }
                }
                if self.r.chance(40) && seen.insert("null".into()) {
                    let at = self.r.below(ts.len() + 1);
                    ts.insert(at, Ty::prim("null"));
                }
                TyK::Union(ts)
            }
        };
        let props = if matches!(k, TyK::Union(_)) { vec![] } else { type_props(&mut self.r, self.cfg.p_prop, &k) };
        Ty { props, k }
    }
    pub fn aliases(&mut self, ty: bool) -> Option<Vec<String>> {
        if !self.r.chance(self.cfg.p_alias) {
            return None;
        }
        let n = self.r.below(4);
        Some(
            (0..n)
                .map(|_| {
                    let s = self.r.pick(&["Old", "Prev", "old_name", "X", "record", "int", "\u{e9}"]).to_string();
                    if ty && self.r.chance(50) { format!("{}{}.{s}", self.r.pick(NSS), if self.r.chance(30) { ".sub" } else { "" }) } else { s }
                })
                .collect(),
        )
    }
    pub fn body(&mut self, kind: char, ns: &str, vis: &[usize]) -> Body {
        match kind {
            'e' => {
                let n = self.r.range(self.cfg.symbols.0, self.cfg.symbols.1);
                let mut used = HashSet::new();
                let symbols: Vec<String> = (0..n).map(|_| uniq(&mut self.r, SYMS, crate::render::KEYWORDS, self.cfg, &mut used)).collect();
                let default = if !symbols.is_empty() && self.r.chance(30) { Some(self.r.pick(&symbols).clone()) } else { None };
                Body::Enum { symbols, default }
            }
            'f' => Body::Fixed { size: if self.r.chance(10) { *self.r.pick(&[0, u32::MAX, 65536, i32::MAX as u32]) } else { self.r.range(1, 20) as u32 } },
            k => {
                let n = self.r.range(self.cfg.fields.0, self.cfg.fields.1);
                let mut used = HashSet::new();
                let mut fields = vec![];
                let mut left = n;
                while left > 0 {
                    let nv = if self.r.chance(75) { 1 } else { self.r.range(1, self.cfg.vars.max(1)) }.min(left);
                    left -= nv;
                    let ty = self.ty(ns, vis, self.cfg.depth, false);
                    let vars = (0..nv).map(|_| self.var(&mut used)).collect();
                    fields.push(FieldDecl { doc: doc(&mut self.r, self.cfg.p_doc), ty, vars });
                }
                Body::Record { error: k == 'x', fields }
            }
        }
    }
    pub fn var(&mut self, used: &mut HashSet<String>) -> Var {
        let order = if self.r.chance(self.cfg.p_alias) {
            Some(self.r.pick(&["ascending", "descending", "ignore", "ASCENDING", "DESCENDING", "IGNORE", "Ignore"]).to_string())
        } else {
            None
        };
        Var {
            name: uniq(&mut self.r, FIELDS, crate::render::KEYWORDS, self.cfg, used),
            doc: doc(&mut self.r, self.cfg.p_doc / 2),
            props: props(&mut self.r, self.cfg.p_prop, "var"),
            aliases: self.aliases(false),
            order,
            default: None,
            raw_default: None,
        }
    }
    pub fn msg(&mut self, ns: &str, vis: &[usize], name: String) -> Msg {
        let oneway = self.r.chance(15);
        let resp = if oneway || self.r.chance(25) {
            None
        } else {
            let mut t = self.ty(ns, vis, self.cfg.depth.min(3), false);
            t.props.clear();
            Some(t)
        };
        let annotable = match &resp {
            None => true,
            Some(t) => match &t.k {
                TyK::Ref(_) => false,
                TyK::Opt(i) => !matches!(i.k, TyK::Ref(_)),
                _ => true,
            },
        };
        let np = self.r.below(4);
        let mut used = HashSet::new();
        let params = (0..np)
            .map(|_| Param { doc: doc(&mut self.r, self.cfg.p_doc), ty: self.ty(ns, vis, self.cfg.depth.min(3), false), var: self.var(&mut used) })
            .collect();
        let mut throws = vec![];
        if !oneway {
            for i in vis {
                let (n, k) = &self.names[*i];
                if *k == 'x' && self.nameable(*i, ns) && throws.len() < 3 && self.r.chance(40) {
                    throws.push(n.clone());
                }
            }
        }
        Msg { name, doc: doc(&mut self.r, self.cfg.p_doc), props: if annotable { props(&mut self.r, self.cfg.p_prop, "msg") } else { vec![] }, resp, params, throws, oneway }
    }
}

/// A valid default for a type, or none if the type only has infinite values.
pub fn default_for(t: &Ty, decls: &HashMap<Name, TypeDecl>, r: &mut Rng, depth: usize) -> Option<Value> {
    if depth == 0 {
        return None;
    }
    match &t.k {
        TyK::Prim(p) => Some(prim_value(p, r)),
        TyK::Kw(k) => Some(prim_value(crate::render::kw_schema(k).0, r)),
        TyK::Decimal(..) => Some(prim_value("bytes", r)),
        TyK::Array(i) => {
            let n = r.below(3);
            let mut v = vec![];
            for _ in 0..n {
                match default_for(i, decls, r, depth - 1) {
                    Some(x) => v.push(x),
                    None => break,
                }
            }
            Some(Value::Array(v))
        }
        TyK::Map(i) => {
            let n = r.below(3);
            let mut v = serde_json::Map::new();
            for k in 0..n {
                match default_for(i, decls, r, depth - 1) {
                    Some(x) => v.insert(format!("{}{k}", ["k", "\u{e9}", "", "a b"][r.below(4)]), x),
                    None => break,
                };
            }
            Some(Value::Object(v))
        }
        TyK::Union(ts) => {
            if ts.is_empty() {
                return None;
            }
            let s = r.below(ts.len());
            for i in 0..ts.len() {
                if let Some(v) = default_for(&ts[(s + i) % ts.len()], decls, r, depth - 1) {
                    return Some(v);
                }
            }
            None
        }
        TyK::Opt(i) => {
            if r.chance(50) {
                if let Some(v) = default_for(i, decls, r, depth - 1) {
                    return Some(v);
                }
            }
            Some(Value::Null)
        }
        TyK::Ref(n) => match &decls.get(n)?.body {
            Body::Enum { symbols, .. } => {
                if symbols.is_empty() {
                    None
                } else {
                    Some(r.pick(symbols).clone().into())
                }
            }
            Body::Fixed { size } => {
                if *size > 64 {
                    return None;
                }
                Some((0..*size).map(|_| char::from_u32(r.below(256) as u32).unwrap()).collect::<String>().into())
            }
            Body::Record { fields, .. } => {
                let mut o = serde_json::Map::new();
                for f in fields {
                    for v in &f.vars {
                        if v.default.is_some() && r.chance(50) {
                            continue;
                        }
                        let d = default_for(&f.ty, decls, r, depth - 1);
                        match d {
                            Some(d) => {
                                o.insert(v.name.clone(), d);
                            }
                            None if v.default.is_some() => {}
                            None => return None,
                        }
                    }
                }
                Some(Value::Object(o))
            }
        },
        TyK::Raw(_) => None,
    }
}
pub fn prim_value(p: &str, r: &mut Rng) -> Value {
    match p {
        "null" => Value::Null,
        "boolean" => r.chance(50).into(),
        "int" => {
            let v = int(r);
            if i32::try_from(v).is_ok() { v.into() } else { (v as i32).into() }
        }
        "long" => int(r).into(),
        "float" | "double" => match r.below(5) {
            0 => int(r).into(),
            1 => r.pick(&["NaN", "Infinity", "-Infinity"]).to_string().into(),
            _ => float(r).into(),
        },
        "string" => string(r).into(),
        _ => (0..r.below(5)).map(|_| char::from_u32(r.below(256) as u32).unwrap()).collect::<String>().into(),
    }
}

fn pick_spell(r: &mut Rng, n: &Name, file_ns: &str) -> NsSpell {
    let mut o = vec![NsSpell::Annot];
    if n.ns == file_ns {
        o.extend([NsSpell::Inherit, NsSpell::Inherit, NsSpell::Inherit, NsSpell::Inherit]);
    }
    if !n.ns.is_empty() {
        o.extend([NsSpell::Dotted, NsSpell::Dotted]);
        if r.chance(20) {
            o.push(NsSpell::Both);
        }
    }
    *r.pick(&o)
}

pub fn world(cfg: &Cfg, r: &mut Rng) -> World {
    let nidl = r.range(cfg.idl_imports.0, cfg.idl_imports.1);
    let njson = r.range(cfg.json_imports.0, cfg.json_imports.1);
    let nfiles = 1 + nidl + njson;
    // namespaces
    let mut nss: Vec<String> = vec![];
    if r.chance(cfg.null_ns) {
        nss.push(String::new());
    }
    let k = r.range(cfg.namespaces.0, cfg.namespaces.1);
    while nss.len() < k {
        let n = r.pick(NSS).to_string();
        if !nss.contains(&n) {
            nss.push(n);
        }
    }
    r.shuffle(&mut nss);
    let file_ns: Vec<String> = (0..nfiles).map(|i| if i == 0 { nss[0].clone() } else { r.pick(&nss).clone() }).collect();
    // names and their files
    let nt = r.range(cfg.types.0, cfg.types.1).max(1 + njson);
    let mut names: Vec<(Name, char)> = vec![];
    let mut used: HashSet<Name> = HashSet::new();
    let mut by_file: Vec<Vec<usize>> = vec![vec![]; nfiles];
    let mut per: Vec<usize> = (0..nt).map(|_| r.below(nfiles)).collect();
    for j in 0..njson {
        per[j] = 1 + nidl + j;
    }
    per[njson] = 0;
    for (i, f) in per.iter().enumerate() {
        let kind = *r.pick(&['r', 'r', 'r', 'r', 'e', 'f', 'x']);
        let mut n;
        loop {
            let ns = if r.chance(65) { file_ns[*f].clone() } else { r.pick(&nss).clone() };
            n = Name { name: ident(r, SIMPLE, KWTYPES, cfg), ns };
            if !names.is_empty() && r.chance(3) {
                let of: Vec<String> = names.iter().map(|n| n.0.name.clone()).collect();
                let t = twin(r, of.iter());
                if !crate::render::KEYWORDS.contains(&t.as_str()) {
                    n.name = t;
                }
            }
            if n.ns.is_empty() && KWTYPES.contains(&n.name.as_str()) {
                continue;
            }
            if used.len() > 40 {
                n.name = format!("{}_{i}", n.name);
            }
            if used.insert(n.clone()) {
                break;
            }
        }
        by_file[*f].push(i);
        names.push((n, kind));
    }
    // file kinds: schema files have a record root when they hold several types
    let mut json_proto = vec![false; nfiles];
    for f in 1 + nidl..nfiles {
        json_proto[f] = r.chance(50);
        if !json_proto[f] && by_file[f].len() > 1 {
            let root = by_file[f][0];
            if !matches!(names[root].1, 'r' | 'x') {
                names[root].1 = 'r';
            }
            // a type in the null namespace cannot be named where its own namespace
            // has one of the same name
            let rns = names[root].0.ns.clone();
            if !rns.is_empty() {
                for &i in &by_file[f] {
                    let n = names[i].0.clone();
                    if n.ns.is_empty() && names.iter().any(|(o, _)| o.ns == rns && o.name == n.name) {
                        let mut n = Name { ns: rns.clone(), name: n.name };
                        while used.contains(&n) {
                            n.name.push('q');
                        }
                        used.insert(n.clone());
                        names[i].0 = n;
                    }
                }
            }
        }
    }
    let modes = {
        let (a, b, c) = cfg.mode;
        let x = r.below((a + b + c) as usize) as u32;
        if x < a { 0 } else if x < a + b { 1 } else { 2 }
    };
    let mut g = G { cfg, r: r.fork(), names, json: false };
    let all: Vec<usize> = (0..nt).collect();
    let mut decls: Vec<Option<TypeDecl>> = vec![None; nt];
    for f in 0..nfiles {
        let json = f > nidl;
        g.json = json;
        for (pos, &i) in by_file[f].clone().iter().enumerate() {
            let (n, kind) = g.names[i].clone();
            let vis: Vec<usize> = if cfg.backward_only {
                by_file[f][..pos].to_vec()
            } else if json && !g.r.chance(20) {
                by_file[f].clone()
            } else {
                all.clone()
            };
            let mut body = g.body(kind, &n.ns, &vis);
            let _ = &mut body;
            let ctx = match kind {
                'e' => "enum",
                'f' => "fixed",
                _ => "record",
            };
            let mut pr = props(&mut g.r, cfg.p_prop, ctx);
            if kind == 'f' && g.r.chance(cfg.p_prop) {
                let l = g.r.pick(&["decimal", "duration", "uuid", "date", "custom"]).to_string();
                pr.retain(|p| !["logicalType", "precision", "scale"].contains(&p.0.as_str()));
                pr.push(("logicalType".into(), l.into()));
                if g.r.chance(60) {
                    pr.push(("precision".into(), (g.r.range(1, 30) as i64).into()));
                }
                if g.r.chance(40) {
                    pr.push(("scale".into(), (g.r.below(30) as i64).into()));
                }
            }
            let aliases = g.aliases(true);
            let d = doc(&mut g.r, cfg.p_doc);
            let sp = pick_spell(&mut g.r, &n, &file_ns[f]);
            decls[i] = Some(TypeDecl { name: n, ns_spell: sp, doc: d, props: pr, aliases, body });
        }
    }
    // schema files: make every type reachable from the root
    for f in 1 + nidl..nfiles {
        if json_proto[f] || by_file[f].len() < 2 {
            continue;
        }
        let ids = by_file[f].clone();
        for (pos, &i) in ids.iter().enumerate().skip(1) {
            let target = g.names[i].0.clone();
            // parent: the root or an earlier record whose context can name it
            let cands: Vec<usize> = ids[..pos]
                .iter()
                .copied()
                .filter(|p| matches!(decls[*p].as_ref().unwrap().body, Body::Record { .. }))
                .filter(|p| {
                    g.json = true;
                    g.nameable(i, &decls[*p].as_ref().unwrap().name.ns)
                })
                .collect();
            let p = if cands.is_empty() {
                ids[0]
            } else {
                *g.r.pick(&cands)
            };
            let d = decls[p].as_mut().unwrap();
            if let Body::Record { fields, .. } = &mut d.body {
                let names: HashSet<String> = fields.iter().flat_map(|f| f.vars.iter().map(|v| v.name.clone())).collect();
                let mut nm = format!("link{pos}");
                while names.contains(&nm) {
                    nm.push('_');
                }
                let at = g.r.below(fields.len() + 1);
                let mut t = Ty::of(TyK::Ref(target));
                match g.r.below(4) {
                    0 => t = Ty::of(TyK::Array(Box::new(t))),
                    1 => t = Ty::of(TyK::Map(Box::new(t))),
                    2 => t = Ty::of(TyK::Union(vec![Ty::prim("null"), t])),
                    _ => {}
                }
                fields.insert(
                    at,
                    FieldDecl { doc: None, ty: t, vars: vec![Var { name: nm, doc: None, props: vec![], aliases: None, order: None, default: None, raw_default: None }] },
                );
            }
        }
    }
    let mut dmap: HashMap<Name, TypeDecl> = decls.iter().flatten().map(|d| (d.name.clone(), d.clone())).collect();
    // defaults
    for i in 0..nt {
        let mut d = decls[i].clone().unwrap();
        if let Body::Record { fields, .. } = &mut d.body {
            for fd in fields.iter_mut() {
                for v in fd.vars.iter_mut() {
                    if g.r.chance(cfg.p_default) {
                        v.default = default_for(&fd.ty, &dmap, &mut g.r, 5);
                    }
                }
            }
        }
        dmap.insert(d.name.clone(), d.clone());
        decls[i] = Some(d);
    }
    // import graph: every file is reached from an IDL file with a smaller number
    let mut imports: Vec<Vec<usize>> = vec![vec![]; nfiles];
    for f in 1..nfiles {
        let p = if f > nidl { g.r.below(nidl + 1) } else { g.r.below(f) };
        imports[p].push(f);
    }
    for _ in 0..g.r.below(nfiles + 1) {
        if nfiles > 1 {
            let p = g.r.below(nidl + 1);
            let t = g.r.below(nfiles);
            if !(p == 0 && t == 0 && g.r.chance(70)) && t != 0 {
                imports[p].push(t);
            } else if p != 0 || nidl > 0 {
                // cycle back to the main file
                imports[p].push(0);
            }
        }
    }
    let mut msgno = 0;
    let mut files = vec![];
    for f in 0..nfiles {
        g.json = f > nidl;
        let mode = if f == 0 { modes } else { g.r.below(3) };
        let nm = if (f <= nidl && mode == 0) || json_proto[f] { g.r.range(cfg.msgs.0, cfg.msgs.1) } else { 0 };
        let mut msgs = vec![];
        for _ in 0..nm {
            msgno += 1;
            let base = if g.r.chance(cfg.p_kw) { g.r.pick(&["record", "void", "int", "namespace", "idl", "error"]).to_string() } else { g.r.pick(&["ping", "get", "put", "do_it", "hello", "Z", "m"]).to_string() };
            let vis: Vec<usize> = if f > nidl || cfg.backward_only { by_file[f].clone() } else { all.clone() };
            let name = if g.r.chance(50) && msgno == 1 { base } else { format!("{base}{msgno}") };
            // The messages of every protocol end up in the main one. Avro has no notation
            // for a null-namespace type there if its own namespace has the same name.
            let main_ns = &file_ns[0];
            let vis: Vec<usize> = vis
                .into_iter()
                .filter(|i| {
                    let n = &g.names[*i].0;
                    main_ns.is_empty() || !n.ns.is_empty() || !g.names.iter().any(|(o, _)| o.ns == *main_ns && o.name == n.name)
                })
                .collect();
            let mut m = g.msg(&file_ns[f], &vis, name);
            for p in &mut m.params {
                if g.r.chance(cfg.p_default) {
                    p.var.default = default_for(&p.ty, &dmap, &mut g.r, 4);
                }
            }
            msgs.push(m);
        }
        let mut ds: Vec<TypeDecl> = by_file[f].iter().map(|i| decls[*i].clone().unwrap()).collect();
        if f > nidl {
            ds.iter_mut().for_each(|d| json_docs(&mut g.r, d));
            for m in &mut msgs {
                if let Some(d) = &mut m.doc {
                    d.text = json_doc(&mut g.r, &d.text);
                }
                for p in &mut m.params {
                    if let Some(d) = &mut p.doc {
                        d.text = json_doc(&mut g.r, &d.text);
                    }
                }
            }
            let dir = g.r.pick(&["", "", "json/", "sub/"]).to_string();
            files.push(File {
                path: format!("{dir}j{f}.{}", if json_proto[f] { "avpr" } else { "avsc" }),
                body: FileBody::Json(JsonFile { proto: json_proto[f], ns: file_ns[f].clone(), name: format!("JP{f}"), decls: ds, msgs, style: g.r.u64() }),
            });
            continue;
        }
        let kind = match mode {
            0 => {
                let n = Name { ns: file_ns[f].clone(), name: if g.r.chance(cfg.p_kw) { "protocol".into() } else { format!("Proto{f}") } };
                let mut sp = pick_spell(&mut g.r, &n, "");
                if sp == NsSpell::Inherit && !n.ns.is_empty() {
                    sp = NsSpell::Annot;
                }
                Kind::Proto { name: n.name, ns_spell: sp, doc: doc(&mut g.r, cfg.p_doc), props: props(&mut g.r, cfg.p_prop, "protocol") }
            }
            1 => {
                let vis: Vec<usize> = if cfg.backward_only { by_file[f].clone() } else { all.clone() };
                Kind::Schema { main: g.ty(&file_ns[f].clone(), &vis, cfg.depth, false) }
            }
            _ => Kind::Named,
        };
        let mut items: Vec<Item> = ds.into_iter().map(Item::Type).collect();
        for m in msgs {
            let at = if cfg.backward_only { items.len() } else { g.r.below(items.len() + 1) };
            items.insert(at, Item::Msg(m));
        }
        // keep declared order of types, insert imports anywhere
        for t in &imports[f] {
            let at = g.r.below(items.len() + 1);
            items.insert(at, Item::Import { target: *t, path: None });
        }
        let dir = if f == 0 { "" } else { *g.r.pick(&["", "", "sub/", "sub/deep/", "o/"]) };
        files.push(File { path: if f == 0 { "main.avdl".into() } else { format!("{dir}f{f}.avdl") }, body: FileBody::Idl(IdlFile { kind, ns: file_ns[f].clone(), items }) });
    }
    World { files, import_dirs: vec![] }
}
/// For messages: make the importing protocol override one of an imported one's.
pub fn add_overrides(w: &mut World, r: &mut Rng) -> usize {
    let mut n = 0;
    for i in 0..w.files.len() {
        let mut names: Vec<String> = vec![];
        if let FileBody::Idl(f) = &w.files[i].body {
            if !matches!(f.kind, Kind::Proto { .. }) {
                continue;
            }
            for it in &f.items {
                if let Item::Import { target, .. } = it {
                    if *target == i || *target == 0 {
                        continue;
                    }
                    match &w.files[*target].body {
                        FileBody::Idl(t) => {
                            if matches!(t.kind, Kind::Proto { .. }) {
                                names.extend(t.items.iter().filter_map(|x| if let Item::Msg(m) = x { Some(m.name.clone()) } else { None }))
                            }
                        }
                        FileBody::Json(j) => names.extend(j.msgs.iter().map(|m| m.name.clone())),
                    }
                }
            }
        }
        if names.is_empty() {
            continue;
        }
        if let FileBody::Idl(f) = &mut w.files[i].body {
            let mut own: Vec<&mut Msg> = f.items.iter_mut().filter_map(|x| if let Item::Msg(m) = x { Some(m) } else { None }).collect();
            names.retain(|n| !own.iter().any(|m| m.name == *n));
            if names.is_empty() {
                continue;
            }
            for m in own.iter_mut().take(3) {
                if names.is_empty() || (n > 0 && r.chance(60)) {
                    break;
                }
                let k = r.below(names.len());
                m.name = names.remove(k);
                // (the imported one's documentation must not show)
                if r.chance(30) {
                    m.doc = None;
                }
                names.retain(|x| *x != m.name);
                n += 1;
            }
        }
    }
    n
}
