//! The reference model: what a world denotes, computed from the abstract
//! program alone.
use crate::ast::*;
use crate::canon::*;
use crate::render::kw_schema;
use std::collections::{BTreeMap, HashMap, HashSet};

pub struct Model {
    /// named types in the order they become defined
    pub registry: Vec<String>,
    pub defs: HashMap<String, CDef>,
    pub msgs: BTreeMap<String, CMsg>,
    pub head: Option<CHead>,
    pub root: Option<CTy>,
    pub named_only: bool,
    /// number of dropped union annotations / non-standard aliases per file
    pub reached: Vec<usize>,
}

pub fn cty(t: &Ty) -> CTy {
    let a = dedup_props(&t.props);
    match &t.k {
        TyK::Prim(p) => CTy::Prim(p.to_string(), norm_prim(p, a)),
        TyK::Kw(k) => {
            let (b, l) = kw_schema(k);
            let mut a = a;
            a.insert("logicalType".into(), l.into());
            CTy::Prim(b.into(), a)
        }
        TyK::Decimal(p, s) => {
            let mut a = a;
            a.insert("logicalType".into(), "decimal".into());
            a.insert("precision".into(), (*p).into());
            a.insert("scale".into(), s.unwrap_or(0).into());
            CTy::Prim("bytes".into(), norm_prim("bytes", a))
        }
        TyK::Ref(n) => CTy::Named(n.full()),
        TyK::Array(i) => CTy::Array(Box::new(cty(i)), a),
        TyK::Map(i) => CTy::Map(Box::new(cty(i)), a),
        TyK::Union(ts) => CTy::Union(ts.iter().map(cty).collect()),
        TyK::Opt(i) => {
            let mut inner = (**i).clone();
            inner.props = t.props.clone();
            CTy::Union(vec![CTy::Prim("null".into(), Attrs::new()), cty(&inner)])
        }
        TyK::Raw(_) => CTy::Named("<raw>".into()),
    }
}
fn field(ty: &Ty, v: &Var, doc: &Option<Doc>, idl: bool, nl: &str) -> CField {
    let mut t = cty(ty);
    if idl {
        if let (TyK::Opt(_), Some(d)) = (&ty.k, &v.default) {
            if !d.is_null() {
                if let CTy::Union(b) = &mut t {
                    b.swap(0, 1);
                }
            }
        }
    }
    CField {
        name: v.name.clone(),
        ty: t,
        doc: v.doc.as_ref().or(doc.as_ref()).map(|d| d.text.replace('\n', nl)),
        default: v.default.clone(),
        order: v.order.as_ref().map(|o| o.to_lowercase()).unwrap_or("ascending".into()),
        aliases: v.aliases.clone().unwrap_or_default(),
        attrs: dedup_props(&v.props),
    }
}
pub fn cdef(d: &TypeDecl, idl: bool, nl: &str) -> CDef {
    let mut c = CDef {
        full: d.name.full(),
        kind: String::new(),
        doc: d.doc.as_ref().map(|d| d.text.replace('\n', nl)),
        aliases: d.aliases.clone().unwrap_or_default().into_iter().map(|a| if a.contains('.') { a } else { join(&d.name.ns, &a) }).collect(),
        attrs: dedup_props(&d.props),
        fields: vec![],
        symbols: vec![],
        default: None,
        size: None,
    };
    match &d.body {
        Body::Record { error, fields } => {
            c.kind = if *error { "error" } else { "record" }.into();
            for f in fields {
                for v in &f.vars {
                    c.fields.push(field(&f.ty, v, &f.doc, idl, nl));
                }
            }
        }
        Body::Enum { symbols, default } => {
            c.kind = "enum".into();
            c.symbols = symbols.clone();
            c.default = default.clone();
        }
        Body::Fixed { size } => {
            c.kind = "fixed".into();
            c.size = Some(*size as u64);
        }
    }
    c
}
fn cmsg(m: &Msg, idl: bool, nl: &str) -> CMsg {
    CMsg {
        doc: m.doc.as_ref().map(|d| d.text.replace('\n', nl)),
        attrs: dedup_props(&m.props),
        request: m.params.iter().map(|p| field(&p.ty, &p.var, &p.doc, idl, nl)).collect(),
        response: m.resp.as_ref().map(cty).unwrap_or(CTy::Prim("null".into(), Attrs::new())),
        errors: m.throws.iter().map(|n| CTy::Named(n.full())).collect(),
        oneway: m.oneway,
    }
}
/// Order in which a JSON file's definitions become available: nested ones
/// before the type that contains them.
fn json_order(j: &JsonFile) -> Vec<usize> {
    fn visit(i: usize, j: &JsonFile, seen: &mut HashSet<usize>, out: &mut Vec<usize>) {
        if !seen.insert(i) {
            return;
        }
        if let Body::Record { fields, .. } = &j.decls[i].body {
            for f in fields {
                // one JSON field per variable, but later ones repeat known names
                visit_ty(&f.ty, j, seen, out);
            }
        }
        out.push(i);
    }
    fn visit_ty(t: &Ty, j: &JsonFile, seen: &mut HashSet<usize>, out: &mut Vec<usize>) {
        match &t.k {
            TyK::Ref(n) => {
                if let Some(k) = j.decls.iter().position(|d| d.name == *n) {
                    visit(k, j, seen, out);
                }
            }
            TyK::Array(i) | TyK::Map(i) | TyK::Opt(i) => visit_ty(i, j, seen, out),
            TyK::Union(ts) => ts.iter().for_each(|x| visit_ty(x, j, seen, out)),
            _ => {}
        }
    }
    let mut seen = HashSet::new();
    let mut out = vec![];
    let n = if j.proto { j.decls.len() } else { 1 };
    for i in 0..n {
        visit(i, j, &mut seen, &mut out);
    }
    out
}

/// `nls[i]`: the line ending file i is written with (it shows in docs).
pub fn model(w: &World, nls: &[&str]) -> Model {
    let mut m = Model {
        registry: vec![],
        defs: HashMap::new(),
        msgs: BTreeMap::new(),
        head: None,
        root: None,
        named_only: false,
        reached: vec![],
    };
    fn add(m: &mut Model, d: CDef) {
        m.registry.push(d.full.clone());
        m.defs.insert(d.full.clone(), d);
    }
    fn file(i: usize, w: &World, nls: &[&str], m: &mut Model, seen: &mut HashSet<usize>) -> BTreeMap<String, CMsg> {
        seen.insert(i);
        m.reached.push(i);
        let mut msgs = BTreeMap::new();
        match &w.files[i].body {
            FileBody::Json(j) => {
                for k in json_order(j) {
                    add(m, cdef(&j.decls[k], false, "\n"));
                }
                for x in &j.msgs {
                    msgs.insert(x.name.clone(), cmsg(x, false, "\n"));
                }
            }
            FileBody::Idl(f) => {
                let mut own = BTreeMap::new();
                for it in &f.items {
                    match it {
                        Item::Import { target, .. } => {
                            if !seen.contains(target) {
                                let sub = file(*target, w, nls, m, seen);
                                msgs.extend(sub);
                            }
                        }
                        Item::Type(t) => add(m, cdef(t, true, nls[i])),
                        Item::Msg(x) => {
                            own.insert(x.name.clone(), cmsg(x, true, nls[i]));
                        }
                        Item::Raw(_) => {}
                    }
                }
                msgs.extend(own);
            }
        }
        msgs
    }
    let mut seen = HashSet::new();
    let msgs = file(0, w, nls, &mut m, &mut seen);
    let f = w.main();
    match &f.kind {
        Kind::Proto { name, doc, props, .. } => {
            m.head = Some(CHead {
                name: name.clone(),
                ns: f.ns.clone(),
                doc: doc.as_ref().map(|d| d.text.replace('\n', nls[0])),
                attrs: dedup_props(props),
            });
            m.msgs = msgs;
        }
        Kind::Schema { main } => m.root = Some(cty(main)),
        Kind::Named => m.named_only = true,
    }
    m
}
struct Sim<'a> {
    m: &'a Model,
    known: HashSet<String>,
    order: Vec<(String, String)>,
}
impl<'a> Sim<'a> {
    fn ty(&mut self, t: &CTy, at: &str) {
        match t {
            CTy::Named(n) => {
                if self.m.defs.contains_key(n) && self.known.insert(n.clone()) {
                    self.order.push((n.clone(), at.into()));
                    for f in &self.m.defs[n].fields {
                        self.ty(&f.ty, n);
                    }
                }
            }
            CTy::Array(i, _) | CTy::Map(i, _) => self.ty(i, at),
            CTy::Union(ts) => ts.iter().for_each(|x| self.ty(x, at)),
            CTy::Prim(..) => {}
        }
    }
}
impl Model {
    /// The document `idl` should produce.
    pub fn document(&self) -> CDoc {
        let mut s = Sim { m: self, known: HashSet::new(), order: vec![] };
        let mut d = CDoc { head: self.head.clone(), root: self.root.clone(), ..Default::default() };
        match &self.root {
            Some(t) => s.ty(t, "root"),
            None => {
                for n in &self.registry {
                    s.ty(&CTy::Named(n.clone()), "types");
                }
                d.msgs = self.msgs.clone();
            }
        }
        d.defs = s.known.iter().map(|k| (k.clone(), self.defs[k].clone())).collect();
        d.order = s.order;
        d
    }
    /// The stand-alone schema of one type.
    pub fn extracted(&self, n: &str) -> CDoc {
        let mut s = Sim { m: self, known: HashSet::new(), order: vec![] };
        s.ty(&CTy::Named(n.into()), "root");
        CDoc {
            root: Some(CTy::Named(n.into())),
            defs: s.known.iter().map(|k| (k.clone(), self.defs[k].clone())).collect(),
            order: s.order,
            ..Default::default()
        }
    }
}
