//! Spells abstract programs as source text. Every choice of layout, comments,
//! quoting and literal spelling comes from the style's random numbers.
use crate::ast::*;
use crate::rng::Rng;
use serde_json::Value;

pub const KEYWORDS: &[&str] = &[
    "protocol", "namespace", "import", "idl", "schema", "enum", "fixed", "error", "record", "array", "map", "union",
    "boolean", "int", "long", "float", "double", "string", "bytes", "null", "true", "false", "decimal", "date",
    "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid", "void", "oneway", "throws", "NaN", "Infinity",
];

#[derive(Clone, Debug)]
pub struct Style {
    pub seed: u64,
    /// 0 plain, 1 some comments and odd spacing, 2 wild
    pub trivia: u8,
    /// 0 canonical spelling, 1 varied literals and quoting
    pub spell: u8,
    pub crlf: bool,
    /// merge or split variables of one declaration is decided by the program,
    /// not the style; this only adds a trailing SUB and garbage
    pub sub: bool,
    /// ordinary comments may contain non-ASCII text
    pub unicode: bool,
}
impl Style {
    pub fn plain(seed: u64) -> Style {
        Style { seed, trivia: 0, spell: 0, crlf: false, sub: false, unicode: false }
    }
    pub fn random(r: &mut Rng) -> Style {
        Style {
            seed: r.u64(),
            trivia: r.below(3) as u8,
            spell: r.below(2) as u8,
            crlf: r.chance(25),
            sub: r.chance(8),
            unicode: r.chance(40),
        }
    }
}

pub fn mark_open(i: usize) -> char {
    char::from_u32(0xE000 + 2 * i as u32).unwrap()
}
pub fn mark_close(i: usize) -> char {
    char::from_u32(0xE001 + 2 * i as u32).unwrap()
}
pub fn marked(i: usize, s: &str) -> String {
    format!("{}{}{}", mark_open(i), s, mark_close(i))
}
fn is_mark(c: char) -> bool {
    ('\u{E000}'..='\u{E3FF}').contains(&c)
}
/// Remove the marks; returns the text and, per mark, its byte range.
pub fn strip_marks(s: &str) -> (String, Vec<(usize, std::ops::Range<usize>)>) {
    let mut out = String::with_capacity(s.len());
    let mut open = std::collections::BTreeMap::new();
    let mut res = vec![];
    for c in s.chars() {
        if is_mark(c) {
            let k = c as u32 - 0xE000;
            if k % 2 == 0 {
                open.insert(k / 2, out.len());
            } else if let Some(st) = open.get(&(k / 2)) {
                res.push(((k / 2) as usize, *st..out.len()));
            }
        } else {
            out.push(c);
        }
    }
    res.sort_by_key(|x| x.0);
    (out, res)
}

#[derive(Clone, Debug)]
pub enum Tok {
    T(String),
    Doc(Doc),
    /// preferred line break with this indentation
    Nl(usize),
}

pub struct R<'a> {
    pub toks: Vec<Tok>,
    pub st: &'a Style,
    pub r: Rng,
    ind: usize,
}

pub fn quote_ident(s: &str, r: &mut Rng, wild: bool) -> String {
    s.split('.')
        .map(|seg| {
            let bare: String = seg.chars().filter(|c| !is_mark(*c)).collect();
            if KEYWORDS.contains(&bare.as_str()) || (wild && !bare.contains('-') && r.chance(15)) {
                let pre: String = seg.chars().take_while(|c| is_mark(*c)).collect();
                let post: String = seg.chars().rev().take_while(|c| is_mark(*c)).collect();
                format!("{pre}`{bare}`{post}")
            } else {
                seg.to_string()
            }
        })
        .collect::<Vec<_>>()
        .join(".")
}

pub fn spell_int(n: i64, r: &mut Rng, wild: bool) -> String {
    if !wild {
        return n.to_string();
    }
    let neg = n < 0;
    let a = n.unsigned_abs();
    let sign = if neg { "-" } else { "" };
    let mut s = match r.below(6) {
        0 => format!("{sign}0x{a:x}"),
        1 => format!("{sign}0X{a:X}"),
        2 if a != 0 => format!("{sign}0{a:o}"),
        3 => format!("{sign}0x0{a:X}"),
        _ => n.to_string(),
    };
    if r.chance(20) {
        s.push(*r.pick(&['L', 'l']));
    }
    s
}
pub fn spell_u32(n: u32, r: &mut Rng, wild: bool) -> String {
    if !wild {
        return n.to_string();
    }
    match r.below(5) {
        0 => format!("0x{n:x}"),
        1 => format!("0X{n:X}"),
        2 if n != 0 => format!("0{n:o}"),
        _ => n.to_string(),
    }
}
pub fn spell_float(f: f64, r: &mut Rng, wild: bool) -> String {
    let base = format!("{f:?}");
    if !wild {
        return base;
    }
    let mut s = match r.below(5) {
        0 => format!("{f:e}"),
        1 => {
            let e = format!("{f:E}");
            if e.contains('.') || e.contains('E') { e } else { base.clone() }
        }
        2 if base.ends_with(".0") => base[..base.len() - 1].to_string(),
        3 if base.starts_with("0.") => base[1..].to_string(),
        _ => base.clone(),
    };
    if f.is_sign_positive() && r.chance(15) {
        s.insert(0, '+');
    }
    if r.chance(25) {
        s.push(*r.pick(&['d', 'D', 'f', 'F']));
    }
    s
}
pub fn spell_str(v: &str, r: &mut Rng, wild: bool) -> String {
    let single = false;
    let q = if single { '\'' } else { '"' };
    let mut o = String::new();
    o.push(q);
    for c in v.chars() {
        if is_mark(c) {
            o.push(c);
            continue;
        }
        let uni = |o: &mut String, r: &mut Rng| {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                let us = "u";
                if r.chance(50) {
                    o.push_str(&format!("\\{us}{u:04x}"));
                } else {
                    o.push_str(&format!("\\{us}{u:04X}"));
                }
            }
        };
        match c {
            '\\' => o.push_str("\\\\"),
            '"' if single => uni(&mut o, r),
            '"' => o.push_str("\\\""),
            '\'' if single => o.push_str("\\'"),
            '\'' if wild && r.chance(30) => o.push_str("\\'"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                if r.chance(50) {
                    o.push_str(&format!("\\{:03o}", c as u32))
                } else {
                    uni(&mut o, r)
                }
            }
            c if wild && r.chance(12) => {
                if (c as u32) < 0x100 && r.chance(50) {
                    o.push_str(&format!("\\{:03o}", c as u32))
                } else {
                    uni(&mut o, r)
                }
            }
            c => o.push(c),
        }
    }
    o.push(q);
    o
}

impl<'a> R<'a> {
    pub fn new(st: &'a Style) -> R<'a> {
        R { toks: vec![], st, r: Rng::new(st.seed), ind: 0 }
    }
    fn wild(&self) -> bool {
        self.st.spell > 0
    }
    pub fn t(&mut self, s: &str) {
        self.toks.push(Tok::T(s.into()));
    }
    fn nl(&mut self) {
        self.toks.push(Tok::Nl(self.ind));
    }
    pub fn ident(&mut self, s: &str) {
        let w = self.wild();
        let q = quote_ident(s, &mut self.r, w);
        self.toks.push(Tok::T(q));
    }
    pub fn str(&mut self, s: &str) {
        let w = self.wild();
        let q = spell_str(s, &mut self.r, w);
        self.toks.push(Tok::T(q));
    }
    pub fn value(&mut self, v: &Value) {
        let w = self.wild();
        match v {
            Value::Null => self.t("null"),
            Value::Bool(b) => self.t(if *b { "true" } else { "false" }),
            Value::Number(n) => {
                let s = if let Some(i) = n.as_i64() {
                    spell_int(i, &mut self.r, w)
                } else if n.is_f64() {
                    spell_float(n.as_f64().unwrap(), &mut self.r, w)
                } else {
                    n.to_string()
                };
                self.t(&s)
            }
            Value::String(s) => self.str(s),
            Value::Array(a) => {
                self.t("[");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.value(x);
                }
                self.t("]");
            }
            Value::Object(o) => {
                self.t("{");
                let mut ks: Vec<_> = o.iter().collect();
                if w {
                    self.r.shuffle(&mut ks);
                }
                for (i, (k, x)) in ks.into_iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.str(k);
                    self.t(":");
                    self.value(x);
                }
                self.t("}");
            }
        }
    }
    fn doc(&mut self, d: &Option<Doc>) {
        if let Some(d) = d {
            self.toks.push(Tok::Doc(d.clone()));
            self.nl();
        }
    }
    fn prop(&mut self, k: &str, v: &Value) {
        self.t("@");
        self.ident(k);
        self.t("(");
        self.value(v);
        self.t(")");
    }
    /// annotations in order, with the intercepted ones inserted anywhere
    fn props(&mut self, props: &Props, extra: Vec<(String, Value)>) {
        let mut all: Vec<(String, Value)> = props.clone();
        for e in extra {
            let at = self.r.below(all.len() + 1);
            all.insert(at, e);
        }
        for (k, v) in &all {
            self.prop(k, v);
        }
    }
    fn type_ref(&mut self, n: &Name, ns: &str) {
        if n.ns == ns && !(n.ns.len() > 0 && self.wild() && self.r.chance(30)) {
            self.ident(&n.name)
        } else {
            self.ident(&n.full())
        }
    }
    pub fn ty(&mut self, t: &Ty, ns: &str) {
        self.props(&t.props, vec![]);
        match &t.k {
            TyK::Prim(p) => self.t(p),
            TyK::Kw(p) => self.t(p),
            TyK::Decimal(p, s) => {
                let w = self.wild();
                self.t("decimal");
                self.t("(");
                let x = spell_u32(*p, &mut self.r, w);
                self.t(&x);
                if let Some(s) = s {
                    self.t(",");
                    let x = spell_u32(*s, &mut self.r, w);
                    self.t(&x);
                }
                self.t(")");
            }
            TyK::Ref(n) => self.type_ref(n, ns),
            TyK::Array(i) => {
                self.t("array");
                self.t("<");
                self.ty(i, ns);
                self.t(">");
            }
            TyK::Map(i) => {
                self.t("map");
                self.t("<");
                self.ty(i, ns);
                self.t(">");
            }
            TyK::Union(ts) => {
                self.t("union");
                self.t("{");
                for (i, x) in ts.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.ty(x, ns);
                }
                self.t("}");
            }
            TyK::Opt(i) => {
                self.ty(i, ns);
                self.t("?");
            }
            TyK::Raw(s) => self.t(s),
        }
    }
    fn var(&mut self, v: &Var) {
        self.doc(&v.doc);
        let mut extra = vec![];
        if let Some(a) = &v.aliases {
            extra.push(("aliases".to_string(), Value::from(a.clone())));
        }
        if let Some(o) = &v.order {
            extra.push(("order".to_string(), Value::from(o.clone())));
        }
        self.props(&v.props, extra);
        self.ident(&v.name);
        if let Some(raw) = &v.raw_default {
            self.t("=");
            self.t(raw);
        } else if let Some(d) = &v.default {
            self.t("=");
            self.value(d);
        }
    }
    fn decl_head(&mut self, name: &Name, sp: NsSpell, doc: &Option<Doc>, props: &Props, aliases: &Option<Vec<String>>, kw: &str) {
        self.doc(doc);
        let mut extra = vec![];
        if let Some(a) = aliases {
            extra.push(("aliases".to_string(), Value::from(a.clone())));
        }
        match sp {
            NsSpell::Annot => extra.push(("namespace".to_string(), Value::from(name.ns.clone()))),
            NsSpell::Both => extra.push(("namespace".to_string(), Value::from("loses.out"))),
            _ => {}
        }
        self.props(props, extra);
        self.t(kw);
        match sp {
            NsSpell::Dotted | NsSpell::Both => self.ident(&name.full()),
            _ => self.ident(&name.name),
        }
    }
    pub fn type_decl(&mut self, d: &TypeDecl) {
        let kw = match &d.body {
            Body::Record { error: true, .. } => "error",
            Body::Record { .. } => "record",
            Body::Enum { .. } => "enum",
            Body::Fixed { .. } => "fixed",
        };
        self.decl_head(&d.name, d.ns_spell, &d.doc, &d.props, &d.aliases, kw);
        match &d.body {
            Body::Record { fields, .. } => {
                self.t("{");
                self.ind += 1;
                for f in fields {
                    self.nl();
                    self.doc(&f.doc);
                    self.ty(&f.ty, &d.name.ns);
                    for (i, v) in f.vars.iter().enumerate() {
                        if i > 0 {
                            self.t(",");
                        }
                        self.var(v);
                    }
                    self.t(";");
                }
                self.ind -= 1;
                self.nl();
                self.t("}");
            }
            Body::Enum { symbols, default } => {
                self.t("{");
                for (i, s) in symbols.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.ident(s);
                }
                self.t("}");
                if let Some(s) = default {
                    self.t("=");
                    self.ident(s);
                    self.t(";");
                }
            }
            Body::Fixed { size } => {
                let w = self.wild();
                self.t("(");
                let x = spell_u32(*size, &mut self.r, w);
                self.t(&x);
                self.t(")");
                self.t(";");
            }
        }
        self.nl();
    }
    pub fn msg(&mut self, m: &Msg, ns: &str) {
        self.doc(&m.doc);
        self.props(&m.props, vec![]);
        match &m.resp {
            None => self.t("void"),
            Some(t) => self.ty(t, ns),
        }
        self.ident(&m.name);
        self.t("(");
        for (i, p) in m.params.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.doc(&p.doc);
            self.ty(&p.ty, ns);
            self.var(&p.var);
        }
        self.t(")");
        if m.oneway {
            self.t("oneway");
        }
        for (i, e) in m.throws.iter().enumerate() {
            self.t(if i == 0 { "throws" } else { "," });
            self.type_ref(e, ns);
        }
        self.t(";");
        self.nl();
    }
    /// `paths[i]`: how file i is spelled in an import of this file; `kinds[i]`.
    pub fn idl(&mut self, f: &IdlFile, paths: &[String], kinds: &[&str]) {
        match &f.kind {
            Kind::Proto { name, ns_spell, doc, props } => {
                self.decl_head(&Name::new(&f.ns, name), *ns_spell, doc, props, &None, "protocol");
                self.t("{");
                self.ind += 1;
                self.nl();
            }
            Kind::Schema { .. } | Kind::Named => {
                if !f.ns.is_empty() {
                    self.t("namespace");
                    self.ident(&f.ns);
                    self.t(";");
                    self.nl();
                }
                if let Kind::Schema { main } = &f.kind {
                    self.t("schema");
                    self.ty(main, &f.ns);
                    self.t(";");
                    self.nl();
                }
            }
        }
        for it in &f.items {
            match it {
                Item::Import { target, path } => {
                    self.t("import");
                    self.t(kinds[*target]);
                    let p = path.clone().unwrap_or_else(|| paths[*target].clone());
                    self.str(&p);
                    self.t(";");
                    self.nl();
                }
                Item::Type(t) => self.type_decl(t),
                Item::Msg(m) => self.msg(m, &f.ns),
                Item::Raw(s) => {
                    self.t(s);
                    self.nl();
                }
            }
        }
        if matches!(f.kind, Kind::Proto { .. }) {
            self.ind -= 1;
            self.nl();
            self.t("}");
        }
        self.nl();
    }
    fn comment(&mut self, line_ok: bool) -> String {
        let bodies: &[&str] = &[
            " a comment ", " import idl \"x.avdl\"; ", " { ; } ) > ", " \" unbalanced ' quote ", " * star", " // nested ",
            "!", " record X { int a; } ", " @namespace(\"zz\") ", " /* ", "\\u0041 \\", " TODO", "-", " `tick ", " *",
        ];
        let uni: &[&str] = &[" caf\u{e9} ", " \u{4f60}\u{597d} ", " \u{1F600}\u{1F600} ", " e\u{301} \u{202e}x "];
        let mut b = if self.st.unicode && self.r.chance(50) { self.r.pick(uni).to_string() } else { self.r.pick(bodies).to_string() };
        let nl = if self.st.crlf { "\r\n" } else { "\n" };
        if line_ok && self.r.chance(50) {
            return format!("//{b}{nl}");
        }
        if self.r.chance(20) {
            b = format!("{b}{nl}  {b}");
        }
        if b.ends_with('*') || b.ends_with('/') {
            b.push(' ');
        }
        format!("/*{b}*/")
    }
    fn render_doc(&mut self, d: &Doc, ind: usize) -> String {
        let nl = if self.st.crlf { "\r\n" } else { "\n" };
        let lines: Vec<&str> = d.text.split('\n').collect();
        let pad = " ".repeat(2 * ind);
        match d.layout % 6 {
            // stars
            0 | 1 => {
                let mut s = String::from("/**");
                for l in &lines {
                    s.push_str(&format!("{nl}{pad} *{}{l}", if l.is_empty() { "" } else { " " }));
                }
                s.push_str(&format!("{nl}{pad} */"));
                s
            }
            // double stars
            2 if lines.len() > 1 => {
                let mut s = String::from("/**");
                for l in &lines {
                    s.push_str(&format!("{nl}{pad} **{}{l}", if l.is_empty() { "" } else { "\t" }));
                }
                s.push_str(&format!("{nl}{pad} */"));
                s
            }
            // opening line then indented lines
            3 => {
                let i = if self.r.chance(50) { "    " } else { "\t" };
                let mut s = format!("/** {}", lines[0]);
                for l in &lines[1..] {
                    s.push_str(nl);
                    if l.trim().is_empty() {
                        s.push_str(l);
                    } else {
                        s.push_str(&format!("{i}{l}"));
                    }
                }
                s.push_str(" */");
                s
            }
            // everything on its own, indented, lines
            4 => {
                let mut s = String::from("/**");
                for l in &lines {
                    s.push_str(nl);
                    if l.trim().is_empty() {
                        s.push_str(l);
                    } else {
                        s.push_str(&format!("{pad}   {l}"));
                    }
                }
                s.push_str(&format!("{nl}{pad}*/"));
                s
            }
            // unindented
            _ => format!("/** {}{}*/", lines.join(nl), if self.r.chance(50) { " " } else { "" }),
        }
    }
    pub fn finish(mut self) -> String {
        let nl = if self.st.crlf { "\r\n" } else { "\n" };
        let toks = std::mem::take(&mut self.toks);
        let mut out = String::new();
        // what separates the previous token from the next one so far
        let mut pending_nl: Option<usize> = None;
        let mut ind = 0;
        for t in toks {
            match t {
                Tok::Nl(i) => {
                    pending_nl = Some(i);
                    ind = i;
                }
                Tok::Doc(d) => {
                    self.gap(&mut out, pending_nl.take(), "/", nl);
                    let s = self.render_doc(&d, ind);
                    out.push_str(&s);
                }
                Tok::T(s) => {
                    self.gap(&mut out, pending_nl.take(), &s, nl);
                    out.push_str(&s);
                }
            }
        }
        if self.st.trivia > 0 && self.r.chance(30) {
            out.push_str(nl);
            let c = self.comment(true);
            out.push_str(&c);
        } else if self.r.chance(85) {
            out.push_str(nl);
        }
        if self.st.sub {
            out.push_str("\u{1a}} garbage /* \" \u{e9}");
        }
        out
    }
    fn gap(&mut self, out: &mut String, pending: Option<usize>, next: &str, nl: &str) {
        if out.is_empty() {
            if self.st.trivia > 0 && self.r.chance(30) {
                let c = self.comment(true);
                out.push_str(&c);
                out.push_str(nl);
            }
            return;
        }
        let prev = out.chars().rev().find(|c| !is_mark(*c)).unwrap_or(' ');
        let first = next.chars().find(|c| !is_mark(*c)).unwrap_or(' ');
        let tight = |c: char| "{}()<>,;:=?[]".contains(c);
        let need = !(tight(prev) || tight(first));
        let mut s = String::new();
        match self.st.trivia {
            0 => {
                if let Some(i) = pending {
                    s.push_str(nl);
                    s.push_str(&"  ".repeat(i));
                } else if need {
                    s.push(' ');
                }
            }
            lvl => {
                let odds = if lvl == 1 { 8 } else { 25 };
                if pending.is_some() && self.r.chance(if lvl == 1 { 95 } else { 50 }) {
                    s.push_str(nl);
                    s.push_str(&"  ".repeat(pending.unwrap_or(0)));
                }
                while self.r.chance(odds) {
                    match self.r.below(5) {
                        0 => s.push(' '),
                        1 => s.push_str(if lvl == 2 { "\t" } else { "  " }),
                        2 => s.push_str(nl),
                        _ => {
                            let c = self.comment(true);
                            s.push_str(&c);
                        }
                    }
                }
                if need && s.is_empty() {
                    s.push(' ');
                }
            }
        }
        // a comment must not be glued to a slash or star of its neighbour
        if s.starts_with('/') && (prev == '/' || prev == '*') {
            s.insert(0, ' ');
        }
        out.push_str(&s);
    }
}

pub fn kind_kw(f: &FileBody) -> &'static str {
    match f {
        FileBody::Idl(_) => "idl",
        FileBody::Json(j) if j.proto => "protocol",
        _ => "schema",
    }
}
/// relative path from the directory of `from` to `to`
pub fn rel(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').collect();
    let b: Vec<&str> = to.split('/').collect();
    let dir = &a[..a.len() - 1];
    let mut i = 0;
    while i < dir.len() && i + 1 < b.len() && dir[i] == b[i] {
        i += 1;
    }
    let mut out: Vec<String> = vec!["..".into(); dir.len() - i];
    out.extend(b[i..].iter().map(|s| s.to_string()));
    out.join("/")
}
pub fn render_idl(w: &World, i: usize, st: &Style) -> String {
    let f = match &w.files[i].body {
        FileBody::Idl(f) => f,
        _ => unreachable!(),
    };
    let kinds: Vec<&str> = w.files.iter().map(|f| kind_kw(&f.body)).collect();
    let paths: Vec<String> = w.files.iter().map(|f| rel(&w.files[i].path, &f.path)).collect();
    let mut r = R::new(st);
    r.idl(f, &paths, &kinds);
    r.finish()
}

// ---------------------------------------------------------------- JSON files
pub struct JsonOut {
    pub text: String,
}
struct J<'a> {
    decls: &'a [TypeDecl],
    known: std::collections::HashSet<String>,
    r: Rng,
}
impl<'a> J<'a> {
    fn refname(&mut self, n: &Name, ns: &str) -> Value {
        if n.ns.is_empty() && !ns.is_empty() {
            return Value::from(format!(".{}", n.name));
        }
        // a keyword-like name must be written in full
        if n.ns == ns && (n.ns.is_empty() || (self.r.chance(70) && !KEYWORDS.contains(&n.name.as_str()))) {
            Value::from(n.name.clone())
        } else {
            Value::from(n.full())
        }
    }
    fn ty(&mut self, t: &Ty, ns: &str) -> Value {
        let mut attrs: serde_json::Map<String, Value> = dedup_props(&t.props).into_iter().collect();
        match &t.k {
            TyK::Prim(p) => {
                if attrs.is_empty() && self.r.chance(90) {
                    return Value::from(*p);
                }
                attrs.insert("type".into(), (*p).into());
            }
            TyK::Kw(k) => {
                let (b, l) = kw_schema(k);
                attrs.insert("type".into(), b.into());
                attrs.insert("logicalType".into(), l.into());
            }
            TyK::Decimal(p, s) => {
                attrs.insert("type".into(), "bytes".into());
                attrs.insert("logicalType".into(), "decimal".into());
                attrs.insert("precision".into(), (*p).into());
                if let Some(s) = s {
                    attrs.insert("scale".into(), (*s).into());
                }
            }
            TyK::Ref(n) => {
                let f = n.full();
                let decls = self.decls;
                if !self.known.contains(&f) {
                    if let Some(d) = decls.iter().find(|d| d.name.full() == f) {
                        return self.decl(d, ns);
                    }
                }
                return self.refname(n, ns);
            }
            TyK::Array(i) => {
                attrs.insert("type".into(), "array".into());
                let v = self.ty(i, ns);
                attrs.insert("items".into(), v);
            }
            TyK::Map(i) => {
                attrs.insert("type".into(), "map".into());
                let v = self.ty(i, ns);
                attrs.insert("values".into(), v);
            }
            TyK::Union(ts) => return Value::Array(ts.iter().map(|x| self.ty(x, ns)).collect()),
            TyK::Opt(i) => {
                let mut inner = (**i).clone();
                inner.props = t.props.clone();
                let v = self.ty(&inner, ns);
                return Value::Array(vec!["null".into(), v]);
            }
            TyK::Raw(s) => return serde_json::from_str(s).unwrap_or(Value::from(s.clone())),
        }
        Value::Object(attrs)
    }
    fn field(&mut self, ty: &Ty, v: &Var, doc: &Option<Doc>, ns: &str) -> Value {
        let mut o: serde_json::Map<String, Value> = dedup_props(&v.props).into_iter().collect();
        o.insert("name".into(), v.name.clone().into());
        let t = self.ty(ty, ns);
        o.insert("type".into(), t);
        if let Some(d) = v.doc.as_ref().or(doc.as_ref()) {
            o.insert("doc".into(), d.text.clone().into());
        }
        if let Some(d) = &v.default {
            o.insert("default".into(), d.clone());
        }
        if let Some(x) = &v.order {
            o.insert("order".into(), x.to_lowercase().into());
        }
        if let Some(a) = &v.aliases {
            o.insert("aliases".into(), a.clone().into());
        }
        Value::Object(o)
    }
    fn decl(&mut self, d: &TypeDecl, ns: &str) -> Value {
        self.known.insert(d.name.full());
        let mut o: serde_json::Map<String, Value> = dedup_props(&d.props).into_iter().collect();
        if d.name.ns == ns && self.r.chance(50) {
            o.insert("name".into(), d.name.name.clone().into());
        } else if !d.name.ns.is_empty() && self.r.chance(40) {
            o.insert("name".into(), d.name.full().into());
        } else {
            o.insert("name".into(), d.name.name.clone().into());
            o.insert("namespace".into(), d.name.ns.clone().into());
        }
        if let Some(x) = &d.doc {
            o.insert("doc".into(), x.text.clone().into());
        }
        if let Some(a) = &d.aliases {
            o.insert("aliases".into(), a.clone().into());
        }
        match &d.body {
            Body::Record { error, fields } => {
                o.insert("type".into(), if *error { "error" } else { "record" }.into());
                let mut fs = vec![];
                for f in fields {
                    for v in &f.vars {
                        fs.push(self.field(&f.ty, v, &f.doc, &d.name.ns));
                    }
                }
                o.insert("fields".into(), Value::Array(fs));
            }
            Body::Enum { symbols, default } => {
                o.insert("type".into(), "enum".into());
                o.insert("symbols".into(), symbols.clone().into());
                if let Some(x) = default {
                    o.insert("default".into(), x.clone().into());
                }
            }
            Body::Fixed { size } => {
                o.insert("type".into(), "fixed".into());
                o.insert("size".into(), (*size).into());
            }
        }
        Value::Object(o)
    }
}
pub fn kw_schema(k: &str) -> (&'static str, &'static str) {
    match k {
        "date" => ("int", "date"),
        "time_ms" => ("int", "time-millis"),
        "timestamp_ms" => ("long", "timestamp-millis"),
        "local_timestamp_ms" => ("long", "local-timestamp-millis"),
        "uuid" => ("string", "uuid"),
        _ => unreachable!(),
    }
}
pub fn json_value(j: &JsonFile) -> Value {
    let mut x = J { decls: &j.decls, known: Default::default(), r: Rng::new(j.style) };
    if !j.proto {
        return x.decl(&j.decls[0], "");
    }
    let mut o = serde_json::Map::new();
    o.insert("protocol".into(), j.name.clone().into());
    if !j.ns.is_empty() {
        o.insert("namespace".into(), j.ns.clone().into());
    }
    let mut ts = vec![];
    for d in &j.decls {
        if !x.known.contains(&d.name.full()) {
            ts.push(x.decl(d, &j.ns));
        }
    }
    o.insert("types".into(), ts.into());
    let mut ms = serde_json::Map::new();
    for m in &j.msgs {
        let mut mo: serde_json::Map<String, Value> = dedup_props(&m.props).into_iter().collect();
        if let Some(d) = &m.doc {
            mo.insert("doc".into(), d.text.clone().into());
        }
        let req: Vec<Value> = m.params.iter().map(|p| x.field(&p.ty, &p.var, &p.doc, &j.ns)).collect();
        mo.insert("request".into(), req.into());
        let resp = match &m.resp {
            None => Value::from("null"),
            Some(t) => x.ty(t, &j.ns),
        };
        mo.insert("response".into(), resp);
        if m.oneway {
            mo.insert("one-way".into(), true.into());
        }
        if !m.throws.is_empty() {
            let e: Vec<Value> = m.throws.iter().map(|n| x.ty(&Ty::of(TyK::Ref(n.clone())), &j.ns)).collect();
            mo.insert("errors".into(), e.into());
        }
        ms.insert(m.name.clone(), mo.into());
    }
    o.insert("messages".into(), ms.into());
    Value::Object(o)
}
/// JSON text with random layout and, sometimes, // and /* */ comments.
pub fn json_text(v: &Value, r: &mut Rng) -> String {
    fn comments(r: &mut Rng, on: bool, o: &mut String) {
        if on && r.chance(8) {
            o.push_str(r.pick(&[" // a \"comment\" {\n", "/* x: [ \" */", " /* \u{e9} */ ", "// http://x\n"]));
        }
        if r.chance(20) {
            o.push_str(r.pick(&[" ", "\n", "\t", "\r\n"]));
        }
    }
    fn go(v: &Value, r: &mut Rng, on: bool, o: &mut String) {
        comments(r, on, o);
        match v {
            Value::Array(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    go(x, r, on, o);
                }
                comments(r, on, o);
                o.push(']');
            }
            Value::Object(m) => {
                o.push('{');
                let mut ks: Vec<_> = m.iter().collect();
                r.shuffle(&mut ks);
                for (i, (k, x)) in ks.into_iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    comments(r, on, o);
                    o.push_str(&Value::from(k.clone()).to_string());
                    comments(r, on, o);
                    o.push(':');
                    go(x, r, on, o);
                }
                o.push('}');
            }
            x => o.push_str(&x.to_string()),
        }
        comments(r, on, o);
    }
    let on = r.chance(30);
    let mut o = String::new();
    go(v, r, on, &mut o);
    o
}
/// The text of every file of the world, in order, marks still inside.
pub fn render_world(w: &World, r: &mut Rng, style: &mut dyn FnMut(&mut Rng) -> Style) -> Vec<String> {
    (0..w.files.len())
        .map(|i| match &w.files[i].body {
            FileBody::Idl(_) => {
                let st = style(r);
                render_idl(w, i, &st)
            }
            FileBody::Json(j) => json_text(&json_value(j), r),
        })
        .collect()
}
