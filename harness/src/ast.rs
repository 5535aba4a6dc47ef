//! Abstract programs: what a "world" of source files declares, independent of
//! how it is spelled.
use serde_json::Value;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Name {
    pub ns: String,
    pub name: String,
}
impl Name {
    pub fn new(ns: &str, name: &str) -> Name {
        Name { ns: ns.into(), name: name.into() }
    }
    pub fn full(&self) -> String {
        if self.ns.is_empty() { self.name.clone() } else { format!("{}.{}", self.ns, self.name) }
    }
}

/// Annotations in source order (a later one of the same name wins).
pub type Props = Vec<(String, Value)>;

#[derive(Clone, Debug)]
pub struct Doc {
    /// lines joined by \n
    pub text: String,
    pub layout: u8,
}

#[derive(Clone, Debug)]
pub struct Ty {
    pub props: Props,
    pub k: TyK,
}
#[derive(Clone, Debug)]
pub enum TyK {
    Prim(&'static str),
    /// date, time_ms, timestamp_ms, local_timestamp_ms, uuid
    Kw(&'static str),
    Decimal(u32, Option<u32>),
    Ref(Name),
    Array(Box<Ty>),
    Map(Box<Ty>),
    Union(Vec<Ty>),
    /// `T?` (inner has no annotations of its own)
    Opt(Box<Ty>),
    /// verbatim text, for planted mistakes
    Raw(String),
}
impl Ty {
    pub fn of(k: TyK) -> Ty {
        Ty { props: vec![], k }
    }
    pub fn prim(p: &'static str) -> Ty {
        Ty::of(TyK::Prim(p))
    }
    pub fn depth(&self) -> usize {
        match &self.k {
            TyK::Array(t) | TyK::Map(t) | TyK::Opt(t) => 1 + t.depth(),
            TyK::Union(ts) => 1 + ts.iter().map(|t| t.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a Ty)) {
        f(self);
        match &self.k {
            TyK::Array(t) | TyK::Map(t) | TyK::Opt(t) => t.visit(f),
            TyK::Union(ts) => ts.iter().for_each(|t| t.visit(f)),
            _ => {}
        }
    }
    pub fn visit_mut(&mut self, f: &mut dyn FnMut(&mut Ty)) {
        f(self);
        match &mut self.k {
            TyK::Array(t) | TyK::Map(t) | TyK::Opt(t) => t.visit_mut(f),
            TyK::Union(ts) => ts.iter_mut().for_each(|t| t.visit_mut(f)),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NsSpell {
    Inherit,
    Dotted,
    Annot,
    /// dotted name plus a (losing) @namespace annotation
    Both,
}

#[derive(Clone, Debug)]
pub struct TypeDecl {
    pub name: Name,
    pub ns_spell: NsSpell,
    pub doc: Option<Doc>,
    pub props: Props,
    pub aliases: Option<Vec<String>>,
    pub body: Body,
}
#[derive(Clone, Debug)]
pub enum Body {
    Record { error: bool, fields: Vec<FieldDecl> },
    Enum { symbols: Vec<String>, default: Option<String> },
    Fixed { size: u32 },
}
#[derive(Clone, Debug)]
pub struct FieldDecl {
    pub doc: Option<Doc>,
    pub ty: Ty,
    pub vars: Vec<Var>,
}
#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub doc: Option<Doc>,
    pub props: Props,
    pub aliases: Option<Vec<String>>,
    pub order: Option<String>,
    pub default: Option<Value>,
    /// verbatim default text, for planted mistakes and literal checks
    pub raw_default: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Param {
    pub doc: Option<Doc>,
    pub ty: Ty,
    pub var: Var,
}
#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    pub doc: Option<Doc>,
    pub props: Props,
    pub resp: Option<Ty>,
    pub params: Vec<Param>,
    pub throws: Vec<Name>,
    pub oneway: bool,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Proto { name: String, ns_spell: NsSpell, doc: Option<Doc>, props: Props },
    Schema { main: Ty },
    Named,
}
#[derive(Clone, Debug)]
pub struct IdlFile {
    pub kind: Kind,
    pub ns: String,
    pub items: Vec<Item>,
}
#[derive(Clone, Debug)]
pub enum Item {
    Import { target: usize, path: Option<String> },
    Type(TypeDecl),
    Msg(Msg),
    /// verbatim text
    Raw(String),
}
#[derive(Clone, Debug)]
pub struct JsonFile {
    pub proto: bool,
    /// namespace (and name) of the protocol; for schemas, unused
    pub ns: String,
    pub name: String,
    /// declarations; for a schema file the first is the root and the rest are
    /// reachable from it
    pub decls: Vec<TypeDecl>,
    pub msgs: Vec<Msg>,
    /// seed for spelling choices
    pub style: u64,
}
#[derive(Clone, Debug)]
pub enum FileBody {
    Idl(IdlFile),
    Json(JsonFile),
}
#[derive(Clone, Debug)]
pub struct File {
    pub path: String,
    pub body: FileBody,
}
#[derive(Clone, Debug)]
pub struct World {
    /// files[0] is the main file
    pub files: Vec<File>,
    pub import_dirs: Vec<String>,
}
impl World {
    pub fn main(&self) -> &IdlFile {
        match &self.files[0].body {
            FileBody::Idl(f) => f,
            _ => unreachable!(),
        }
    }
    pub fn main_mut(&mut self) -> &mut IdlFile {
        match &mut self.files[0].body {
            FileBody::Idl(f) => f,
            _ => unreachable!(),
        }
    }
    pub fn all_types(&self) -> Vec<(usize, &TypeDecl)> {
        let mut v = vec![];
        for (i, f) in self.files.iter().enumerate() {
            match &f.body {
                FileBody::Idl(f) => {
                    for it in &f.items {
                        if let Item::Type(t) = it {
                            v.push((i, t));
                        }
                    }
                }
                FileBody::Json(j) => v.extend(j.decls.iter().map(|d| (i, d))),
            }
        }
        v
    }
}
pub const PRIMS: &[&str] = &["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
pub const KWS: &[&str] = &["date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid"];
/// last value wins, first position irrelevant
pub fn dedup_props(p: &Props) -> std::collections::BTreeMap<String, Value> {
    p.iter().cloned().collect()
}
