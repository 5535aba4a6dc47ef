//! C09, C10: one mistake is planted at a marked place of a valid random world;
//! the compilation must fail (C09) and its error must name the right file and
//! cover the mark (C10).
use crate::ast::*;
use crate::gen_::{self, Cfg};
use crate::m_model::*;
use crate::obs::{self, Diag, Out};
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Value, json};
use std::path::Path;

/// where the error must point
#[derive(Clone, Debug, PartialEq)]
pub enum At {
    /// the label is the mark
    Exact,
    /// the label covers the mark and lies within the enclosing mark (1), if any
    Covers,
    /// a syntax error: not before the end of the marked (last good) token
    After,
    /// the label lies on a marked import statement (marks 100...)
    Import,
    /// the label starts where the mark does
    Starts,
    /// the label lies in the marked declaration (mark 1 if any, else mark 0)
    On,
    /// only the file is checked: this one or the other
    Files(usize),
}
#[derive(Clone, Debug)]
pub struct Mist {
    pub kind: String,
    pub file: usize,
    pub at: At,
    /// text the message must contain
    pub say: Option<String>,
}
fn m0(s: &str) -> String {
    marked(0, s)
}

fn idl_files(w: &World) -> Vec<usize> {
    (0..w.files.len()).filter(|i| matches!(w.files[*i].body, FileBody::Idl(_))).collect()
}
fn idl(w: &mut World, i: usize) -> &mut IdlFile {
    match &mut w.files[i].body {
        FileBody::Idl(f) => f,
        _ => unreachable!(),
    }
}
fn insert_item(w: &mut World, f: usize, it: Item, r: &mut Rng) {
    let items = &mut idl(w, f).items;
    let at = r.below(items.len() + 1);
    items.insert(at, it);
}
fn var(n: &str) -> Var {
    Var { name: n.into(), doc: None, props: vec![], aliases: None, order: None, default: None, raw_default: None }
}
fn fdecl(t: Ty, n: &str) -> FieldDecl {
    FieldDecl { doc: None, ty: t, vars: vec![var(n)] }
}
fn raw(s: &str) -> Ty {
    Ty::of(TyK::Raw(s.into()))
}
/// Put a type expression into containers.
fn wrap(t: Ty, r: &mut Rng) -> Ty {
    let mut t = t;
    let mut in_union = false;
    for _ in 0..r.below(4) {
        t = match r.below(3) {
            0 => Ty::of(TyK::Array(Box::new(t))),
            1 => Ty::of(TyK::Map(Box::new(t))),
            _ if !in_union => {
                in_union = true;
                Ty::of(TyK::Union(if r.chance(50) { vec![Ty::prim("null"), t] } else { vec![t, Ty::prim("null")] }))
            }
            _ => t,
        };
        if !matches!(t.k, TyK::Union(_)) {
            in_union = false;
        }
    }
    t
}
/// Put a (wrong) type somewhere: a field, parameter, response or schema
/// declaration of a random IDL file. `simple` types may be wrapped.
fn place_type(w: &mut World, t: Ty, wrapped: bool, r: &mut Rng) -> (usize, String) {
    let fs = idl_files(w);
    let f = *r.pick(&fs);
    let t = if wrapped { wrap(t, r) } else { t };
    let proto = matches!(idl(w, f).kind, Kind::Proto { .. });
    let schema = matches!(idl(w, f).kind, Kind::Schema { .. });
    match r.below(6) {
        0 if proto => {
            let m = Msg { name: "zzmsg".into(), doc: None, props: vec![], resp: Some(t), params: vec![], throws: vec![], oneway: false };
            insert_item(w, f, Item::Msg(m), r);
            (f, "response".into())
        }
        1 if proto => {
            let mut params: Vec<Param> = (0..r.below(3)).map(|i| Param { doc: None, ty: Ty::prim("int"), var: var(&format!("zp{i}")) }).collect();
            let at = r.below(params.len() + 1);
            params.insert(at, Param { doc: None, ty: t, var: var("zzp") });
            let m = Msg { name: "zzmsg".into(), doc: None, props: vec![], resp: None, params, throws: vec![], oneway: false };
            insert_item(w, f, Item::Msg(m), r);
            (f, "parameter".into())
        }
        0 | 1 if schema => {
            let x = idl(w, f);
            if let Kind::Schema { main } = &mut x.kind {
                *main = t;
            }
            (f, "schema declaration".into())
        }
        2 | 3 => {
            // an existing record
            let recs: Vec<usize> = idl(w, f).items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Type(TypeDecl { body: Body::Record { .. }, .. }))).map(|x| x.0).collect();
            if recs.is_empty() {
                return place_new(w, f, t, r);
            }
            let k = *r.pick(&recs);
            if let Item::Type(TypeDecl { body: Body::Record { fields, .. }, .. }) = &mut idl(w, f).items[k] {
                let at = r.below(fields.len() + 1);
                fields.insert(at, fdecl(t, "zzf"));
            }
            (f, "field of an existing record".into())
        }
        _ => place_new(w, f, t, r),
    }
}
fn place_new(w: &mut World, f: usize, t: Ty, r: &mut Rng) -> (usize, String) {
    let d = rec(w, f, "ZzNew", vec![fdecl(Ty::prim("int"), "a"), fdecl(t, "zzf"), fdecl(Ty::prim("int"), "b")], r);
    insert_item(w, f, Item::Type(d), r);
    (f, "field".into())
}
fn tdecl(w: &mut World, f: usize, name: &str, body: Body) -> TypeDecl {
    let ns = idl(w, f).ns.clone();
    TypeDecl { name: Name { ns, name: name.into() }, ns_spell: NsSpell::Inherit, doc: None, props: vec![], aliases: None, body }
}
fn rec(w: &mut World, f: usize, name: &str, fields: Vec<FieldDecl>, r: &mut Rng) -> TypeDecl {
    let error = r.chance(20);
    tdecl(w, f, name, Body::Record { error, fields })
}
fn undefined_name(w: &World, f: usize, r: &mut Rng) -> String {
    let defs: Vec<Name> = w.all_types().iter().map(|t| t.1.name.clone()).collect();
    let ns = match &w.files[f].body {
        FileBody::Idl(x) => x.ns.clone(),
        _ => String::new(),
    };
    for _ in 0..10 {
        let c = match r.below(5) {
            0 => {
                // the simple name of a type of another namespace
                let n = r.pick(&defs);
                n.name.clone()
            }
            1 => {
                let n = r.pick(&defs);
                format!("{}x", n.full())
            }
            2 => {
                let n = r.pick(&defs);
                let s = n.full();
                let mut c: Vec<char> = s.chars().collect();
                let k = c.len() - 1;
                c[k] = if c[k].is_lowercase() { c[k].to_ascii_uppercase() } else { c[k].to_ascii_lowercase() };
                c.into_iter().collect()
            }
            3 => format!("no.such.ns.{}", r.pick(&defs).name),
            _ => "Undefined_Type".into(),
        };
        let full = if c.contains('.') || ns.is_empty() { c.clone() } else { format!("{ns}.{c}") };
        // an unqualified name inside records of any namespace must be undefined
        let simple_taken = !c.contains('.') && defs.iter().any(|d| d.name == c);
        if !defs.iter().any(|d| d.full() == full) && !simple_taken && !KEYWORDS.contains(&c.as_str()) && !c.contains('-') {
            return c;
        }
    }
    "Undefined_Type".into()
}

const TYPE_MISTAKES: &[(&str, &str, &str)] = &[
    // (kind, text with « » around what must be covered, "" or flags)
    ("duplicate union branch", "union { int, string, «int» }", "u"),
    ("duplicate union branch", "union { null, «null» }", "u?"),
    ("duplicate union branch of one base type", "union { date, «int» }", "u"),
    ("duplicate union branch of one base type", "union { bytes, null, «decimal(4)» }", "u"),
    ("duplicate union branch array", "union { array<int>, «array<string>» }", "u"),
    ("duplicate union branch map", "union { map<int>, null, «map<int>» }", "u"),
    ("nested union", "union { null, «union { int }» }", "u"),
    ("nested union", "union { null, «string?» }", "u"),
    ("nullable null", "«null?»", "u"),
    ("zero precision", "decimal(«0»)", ""),
    ("scale above precision", "decimal(5, «6»)", ""),
    ("negative precision", "decimal(«-1», 2)", "f"),
    ("negative scale", "decimal(4, «-1»)", "f"),
    ("precision out of range", "decimal(«99999999999»)", "f"),
    ("scale out of range", "decimal(5, «99999999999»)", "f"),
    ("long suffix on precision", "decimal(«5L»)", "f"),
    ("decimal without precision", "decimal(«)»", "f"),
    ("float precision", "decimal(«1.0»)", "f"),
    ("empty array", "array<«>»", "f"),
    ("two map types", "map<int «,» int>", "f"),
    ("undefined name void", "«void»", ""),
    ("reserved annotation on a type", "«@type(\"x\")» int", "r"),
    ("reserved annotation on a type", "«@items(\"x\")» array<int>", "r"),
    ("reserved annotation on a type", "«@doc(\"x\")» string", "r"),
    ("reserved annotation on a type", "@ok(1) «@aliases([\"x\"])» map<int>", "r"),
    ("reserved annotation on a type", "«@namespace(\"x\")» int", "r"),
    ("reserved annotation on a type", "«@name(\"x\")» int?", "r"),
    ("reserved annotation on a type", "«@fields([])» string", "r"),
    ("reserved annotation on a type", "«@size(4)» bytes", "r"),
    ("reserved annotation on a type", "«@symbols([])» string", "r"),
    ("reserved annotation on a type", "«@values(\"int\")» map<int>", "r"),
    ("overwritten logical type", "«@logicalType(\"uuid\") date»", "o"),
    ("overwritten precision", "«@precision(4) decimal(5)»", "o"),
    ("overwritten scale", "«@scale(4) decimal(5, 2)»", "o"),
    ("annotation without value", "@foo(«)» int", "f"),
    ("annotation with a bare word", "@foo(«bar») int", "f"),
    ("annotation without name", "@«(»1) int", "f"),
    ("annotation without parentheses", "@foo «int»", "f"),
    ("single-quoted string", "@foo(«'a'») int", "f"),
    ("trailing comma in array value", "@foo([1«, ]») int", "f"),
    ("trailing comma in object value", "@foo({\"a\": 1«, }») int", "f"),
    ("unquoted key", "@foo({«a»: 1}) int", "f"),
    ("integer too large", "@foo(«9223372036854775808») int", ""),
    ("integer too small", "@foo([1, «-9223372036854775809»]) int", ""),
    ("integer too large", "@foo(«0x8000000000000000») int", ""),
    ("integer too large", "@foo({\"a\": «01000000000000000000000»}) int", ""),
    ("integer too small", "@foo(«-0x8000000000000001L») int", ""),
];
fn marks_of(s: &str) -> String {
    s.replace('\u{ab}', &mark_open(0).to_string()).replace('\u{bb}', &mark_close(0).to_string())
}
const VAR_MISTAKES: &[(&str, &str)] = &[
    ("reserved annotation on a variable", "int «@default(1)» x;"),
    ("reserved annotation on a variable", "int @a(1) «@doc(\"d\")» x;"),
    ("reserved annotation on a variable", "int «@name(\"n\")» x;"),
    ("reserved annotation on a variable", "int «@type(\"n\")» x;"),
    ("reserved annotation on a variable", "int y, «@type(\"n\")» x;"),
    ("unknown order", "int «@order(\"up\")» x;"),
    ("order not a string", "int «@order(1)» x;"),
    ("aliases not an array", "int «@aliases(\"x\")» x;"),
    ("aliases not strings", "int «@aliases([\"a\", 1])» x;"),
    ("aliases an object", "int «@aliases({})» x;"),
    ("duplicate field", "int dupf; string «dupf»;"),
    ("duplicate field of one declaration", "int dupf, o, «dupf»;"),
    ("duplicate field quoted", "int dupf; array<int> «`dupf`»;"),
    ("hyphen in a field name", "int «my-field»;"),
    ("dot in a field name", "int «a.b»;"),
    ("digit at the start of a field name", "int «9a»;"),
    ("missing semicolon", "int x «string» y;"),
    ("missing name", "int «;»"),
    ("missing type", "«;» int y;"),
    ("default without value", "int x = «;»"),
    ("two defaults", "int x = 1 «=» 2;"),
    ("wrong default", "int x = «\"a\"»;"),
    ("wrong default", "int x = «1.5»;"),
    ("wrong default", "int x = «2147483648»;"),
    ("wrong default", "long x = «1.0»;"),
    ("wrong default", "string x = «null»;"),
    ("wrong default", "string? x = «5»;"),
    ("wrong default", "boolean x = «0»;"),
    ("wrong default", "array<int> x = «{}»;"),
    ("wrong default", "array<int> x = «[1, \"a\"]»;"),
    ("wrong default", "map<long> x = «{\"a\": 1.5}»;"),
    ("wrong default", "union { null, int } x = «\"s\"»;"),
    ("wrong default", "double y = 1, x = «\"s\"»;"),
    ("wrong default", "date x = «\"2020-01-01\"»;"),
    ("wrong default", "bytes x = «1»;"),
    ("integer too large for a default", "long x = «9223372036854775808»;"),
    ("annotation on a reference", "«@foo(1) ZzRef» x;"),
    ("annotation on an optional reference", "«@foo(1) ZzRef?» x;"),
];
const DECL_MISTAKES: &[(&str, &str)] = &[
    ("duplicate symbol", "enum ZzE { A, B, «A» }"),
    ("duplicate symbol quoted", "enum ZzE { A, «`A`» }"),
    ("hyphen in a symbol", "enum ZzE { A, «B-C» }"),
    ("dot in a symbol", "enum ZzE { A, «B.C» }"),
    ("unknown enum default", "enum ZzE { A, B } = «C»;"),
    ("enum default of another case", "enum ZzE { A, B } = «a»;"),
    ("trailing comma in enum", "enum ZzE { A«,» }"),
    ("missing comma in enum", "enum ZzE { A «B» }"),
    ("string as symbol", "enum ZzE { «\"A\"» }"),
    ("enum default without semicolon", "enum ZzE { A } = A «record» ZzQ { }"),
    ("negative size", "fixed ZzF(«-1»);"),
    ("size out of range", "fixed ZzF(«4294967296»);"),
    ("size out of range", "fixed ZzF(«0x100000000»);"),
    ("float size", "fixed ZzF(«1.0»);"),
    ("string size", "fixed ZzF(«\"4\"»);"),
    ("long suffix on size", "fixed ZzF(«4L»);"),
    ("missing size", "«fixed ZzF()»;"),
    ("fixed without semicolon", "fixed ZzF(4) «record» ZzQ { }"),
    ("fixed without parentheses", "fixed ZzF «4»;"),
    ("reserved name", "record «`int`» { }"),
    ("reserved name", "enum «`string`» { A }"),
    ("reserved name", "fixed «`null`»(4);"),
    ("reserved name", "error «`boolean`» { }"),
    ("reserved name", "record «`date`» { }"),
    ("reserved name", "record «`uuid`» { }"),
    ("reserved name", "enum «`timestamp_ms`» { A }"),
    ("unquoted keyword as name", "record «int» { }"),
    ("hyphen in a type name", "record «my-rec» { }"),
    ("hyphen in a namespace", "record «my-ns.Rec» { }"),
    ("bad namespace", "«@namespace(\"a..b\")» record ZzR { }"),
    ("bad namespace", "«@namespace(\"a.1b\")» record ZzR { }"),
    ("bad namespace", "«@namespace(\"a-b\")» enum ZzR { A }"),
    ("bad namespace", "«@namespace(\".a\")» fixed ZzR(1);"),
    ("namespace not a string", "«@namespace(5)» record ZzR { }"),
    ("namespace not a string", "«@namespace([\"a\"])» enum ZzR { A }"),
    ("aliases not an array", "«@aliases(\"x\")» record ZzR { }"),
    ("aliases not strings", "«@aliases([1])» enum ZzR { A }"),
    ("aliases not an array", "«@aliases(null)» fixed ZzR(1);"),
    ("reserved annotation on a record", "«@fields([])» record ZzR { }"),
    ("reserved annotation on a record", "«@doc(\"d\")» error ZzR { }"),
    ("reserved annotation on a record", "@a(1) «@type(\"d\")» record ZzR { }"),
    ("reserved annotation on a record", "«@name(\"d\")» record ZzR { }"),
    ("reserved annotation on an enum", "«@symbols([])» enum ZzR { A }"),
    ("reserved annotation on an enum", "«@default(\"A\")» enum ZzR { A }"),
    ("reserved annotation on an enum", "«@doc(\"A\")» enum ZzR { A }"),
    ("reserved annotation on a fixed", "«@size(3)» fixed ZzR(1);"),
    ("reserved annotation on a fixed", "«@items(3)» fixed ZzR(1);"),
    ("record without body", "record ZzR «;»"),
    ("record in a record", "record ZzR { «record» ZzQ { } }"),
    ("field outside a record", "«int x = 4;»"),
    ("unknown keyword", "«struct» ZzR { }"),
    ("import without kind", "import «\"x.avdl\"»;"),
    ("import of unknown kind", "import «thrift» \"x.avdl\";"),
    ("missing import", "«import idl \"missing_file.avdl\";»"),
    ("missing import", "«import protocol \"missing_file.avpr\";»"),
    ("missing import", "«import schema \"nodir/missing_file.avsc\";»"),
    ("import of a directory", "«import schema \".\";»"),
    ("empty import path", "«import schema \"\";»"),
    ("second protocol", "«protocol» ZzP { }"),
];
const MSG_MISTAKES: &[(&str, &str)] = &[
    ("one-way with result", "«int zzm() oneway;»"),
    ("one-way with result", "«string? zzm(int a) oneway;»"),
    ("one-way with errors", "void zzm() oneway «throws» ZzErr;"),
    ("duplicate parameter", "void zzm(int a, «string a»);"),
    ("duplicate parameter quoted", "void zzm(int a, int b, «int `a`»);"),
    ("hyphen in a parameter name", "void zzm(int «a-b»);"),
    ("dot in a parameter name", "void zzm(int «a.b»);"),
    ("undefined error", "void zzm() throws «Zz_nope»;"),
    ("undefined error", "int zzm() throws ZzErr, «no.such.Zz_nope»;"),
    ("throwing a primitive", "void zzm() throws «int»;"),
    ("undefined name void", "void zzm(«void» x);"),
    ("parameter without name", "void zzm(int «)»;"),
    ("message without semicolon", "void zzm() «void» zzn();"),
    ("trailing comma in parameters", "void zzm(int a, «)»;"),
    ("wrong parameter default", "void zzm(int a = «\"x\"»);"),
    ("wrong parameter default", "void zzm(int b, array<string> a = «[1]»);"),
    ("reserved annotation on a message", "«@response(\"int\")» void zzm();"),
    ("reserved annotation on a message", "«@request([])» int zzm();"),
    ("reserved annotation on a message", "«@errors([])» void zzm();"),
    ("reserved annotation on a message", "«@one-way(true)» void zzm();"),
    ("reserved annotation on a message", "@a(1) «@doc(\"x\")» void zzm();"),
    ("reserved annotation on a parameter", "void zzm(int «@default(1)» a);"),
    ("reserved annotation on a parameter type", "void zzm(«@type(\"x\")» int a);"),
    ("unknown order on a parameter", "void zzm(int «@order(\"x\")» a);"),
    ("no response type", "«zzm();»"),
    ("duplicate message", "void zzm(); int «zzm»(int a);"),
    ("duplicate message", "void zzm(int a); enum ZzQ { A } void «`zzm`»(int a);"),
    ("undefined name array", "«array» zzm();"),
];
const PROTO_ANNOTS: &[&str] = &["@protocol(\"x\")", "@doc(\"x\")", "@messages({})", "@types([])", "@errors([])", "@namespace(1)"];

/// A declaration of several variables, one of them with a wrong default.
fn default_mistake(r: &mut Rng) -> (String, String) {
    const T: &[(&str, &str, &str)] = &[
        ("int", "1", "\"a\""),
        ("string", "\"\\u00e9\"", "5"),
        ("long", "-4", "1.5"),
        ("boolean", "false", "0"),
        ("ZzEn", "\"A\"", "[]"),
        ("ZzEn", "\"B\"", "1"),
        ("ZzFix", "\"ab\"", "{\"ab\": 2}"),
        ("ZzSub", "{\"q\": 1}", "{\"q\": \"x\"}"),
        ("ZzSub", "{\"q\": 1}", "{}"),
        ("ZzSub", "{\"q\": 1, \"e\": \"A\"}", "{\"q\": 1, \"e\": 5}"),
        ("array<ZzEn>", "[\"A\"]", "[\"A\", null]"),
        ("array<array<ZzSub>>", "[[]]", "[[{}]]"),
        ("map<ZzEn>", "{}", "{\"k\": 1.5}"),
        ("map<ZzFix>", "{\"k\": \"xy\"}", "{\"k\": true}"),
        ("ZzEn?", "null", "7"),
        ("union { null, ZzSub }", "null", "{\"q\": true}"),
    ];
    let (t, good, bad) = *r.pick(T);
    let n = r.range(1, 4);
    let at = r.below(n);
    let pre = ["", "", "@foo(1) ", "@aliases([\"o\"]) ", "/** d */ ", "\n  "];
    let one = |i: usize, r: &mut Rng| {
        let p = *r.pick(&pre);
        if i == at {
            format!("{p}zx{i} = \u{ab}{bad}\u{bb}")
        } else if r.chance(60) {
            format!("{p}zx{i} = {good}")
        } else {
            format!("{p}zx{i}")
        }
    };
    let vars: Vec<String> = (0..n).map(|i| one(i, r)).collect();
    let defs = "enum ZzEn { A, B } fixed ZzFix(2); record ZzSub { int q; ZzEn e = \"A\"; } ";
    (defs.into(), format!("{t} {};", vars.join(", ")))
}

/// Mistakes whose marks the error must equal; the others it must cover.
fn how(kind: &str) -> At {
    if ["missing size", "hyphen in a type", "hyphen in a namespace", "reserved name", "bad namespace", "namespace not a string", "aliases not", "duplicate type"].iter().any(|k| kind.starts_with(k)) {
        // whole declarations are labelled at their first token
        At::On
    } else if kind.starts_with("undefined") || kind.starts_with("duplicate field") || kind.starts_with("duplicate symbol") {
        At::Exact
    } else {
        At::Covers
    }
}
/// Syntax errors: reported at or after the mark, never before it.
fn syntactic(kind: &str) -> bool {
    [
        "digit at the start", "missing semicolon", "missing name", "missing type", "keyword as field", "default without value", "two defaults", "trailing comma", "missing comma",
        "string as symbol", "enum default without", "float size", "string size", "fixed without", "unquoted keyword", "record without body",
        "record in a record", "field outside", "unknown keyword", "import without kind", "import of unknown kind", "second protocol", "one-way with errors", "throwing a primitive",
        "parameter without", "message without", "no response", "decimal without", "float precision", "empty array", "two map", "annotation without", "annotation with a bare",
        "single-quoted", "unquoted key", "negative", "long suffix",
    ]
    .iter()
    .any(|p| kind.starts_with(p))
}
pub struct Planted {
    pub mist: Mist,
    /// texts to use instead of the rendered ones
    pub text: Vec<(usize, String)>,
    /// token edit to apply when rendering this file
    pub tok: Option<usize>,
}
/// Put one mistake into the world; None if this kind does not fit it.
pub fn plant(w: &mut World, r: &mut Rng) -> Option<Planted> {
    let p = plant_any(w, r)?;
    // words of the grammar that may name a type, and do so here
    if (p.mist.kind.starts_with("undefined name ") || p.mist.kind == "missing size") && w.all_types().iter().any(|t| ["void", "array", "map", "fixed"].contains(&t.1.name.name.as_str())) {
        return None;
    }
    Some(p)
}
fn plant_any(w: &mut World, r: &mut Rng) -> Option<Planted> {
    let done = |kind: &str, file: usize, at: At| Some(Planted { mist: Mist { kind: kind.into(), file, at, say: None }, text: vec![], tok: None });
    match r.below(20) {
        0..=2 => {
            // an undefined reference
            let fs = idl_files(w);
            let n = undefined_name(w, *r.pick(&fs), r);
            let (f, site) = place_type(w, raw(&m0(&quote_plain(&n))), true, r);
            let mut p = done(&format!("undefined name in a {site}"), f, At::Exact)?;
            let simple = n.rsplit('.').next().unwrap().to_string();
            p.mist.say = Some(simple);
            // the file may have another namespace than the one the name was chosen for
            Some(p)
        }
        3..=6 => {
            let (kind, text, flag) = *r.pick(TYPE_MISTAKES);
            let t = marks_of(text);
            let wrapped = !(flag == "u" && (t.starts_with("union") || text.contains('?')) || flag == "u?") || r.chance(0);
            // a union may sit in a container but not in a union
            let t = if !wrapped && r.chance(40) { Ty::of(TyK::Array(Box::new(raw(&t)))) } else { raw(&t) };
            let msg_pos = flag == "r" || text.trim_start_matches('«').starts_with('@');
            // leading annotations of a response belong to the message: keep out
            let mut tries = 0;
            loop {
                let mut w2 = w.clone();
                let (f, site) = place_type(&mut w2, t.clone(), wrapped, r);
                if (msg_pos || kind == "undefined name void") && site == "response" && tries < 20 {
                    tries += 1;
                    continue;
                }
                *w = w2;
                let at = if syntactic(kind) { At::After } else { how(kind) };
                return done(&format!("{kind} in a {site}"), f, at);
            }
        }
        7 if r.chance(50) => {
            let fs = idl_files(w);
            let f = *r.pick(&fs);
            let (defs, text) = default_mistake(r);
            let proto = matches!(idl(w, f).kind, Kind::Proto { .. });
            let t = marks_of(&text);
            if proto && !t.contains("Zz") {
                // as the parameters (only records' defaults of named types are checked) of a message
                let (ty, vars) = t.split_at(t.find(" zx").or(t.find(" @")).or(t.find(" /")).or(t.find(" \n"))?);
                let vars: Vec<String> = vars.trim_end_matches(';').split(", ").map(|v| v.to_string()).collect();
                if vars.iter().any(|v| !v.contains("zx")) {
                    return None;
                }
                let ps: Vec<String> = vars.iter().map(|v| format!("{ty} {v}")).collect();
                insert_item(w, f, Item::Raw(format!("{defs}{}", marked(1, &format!("void zzmsg({});", ps.join(", "))))), r);
                return done("wrong default of a parameter", f, At::Starts);
            }
            let (pre, post) = (["", "int zz1 = 3, zz3; ", "ZzEn zz1 = \"B\"; "][r.below(3)], ["", " ZzEn zz2 = \"A\";"][r.below(2)]);
            insert_item(w, f, Item::Raw(format!("{defs}{}", marked(1, &format!("record ZzRec {{ {pre}{t}{post} }}")))), r);
            done("wrong default of a variable", f, At::Starts)
        }
        7..=9 => {
            let (kind, text) = *r.pick(VAR_MISTAKES);
            let fs = idl_files(w);
            let f = *r.pick(&fs);
            let kw = if r.chance(80) { "record" } else { "error" };
            let pre = ["", "int zz1; ", "array<union {null, string}> zz1 = []; ", "/** d */ int zz1; "][r.below(4)];
            let post = ["", " int zz2;", " long zz2 = 4;"][r.below(3)];
            let mut t = format!("{kw} ZzRec {{ {pre}{}{post} }}", marks_of(text));
            if text.contains("ZzRef") {
                t = format!("enum ZzRef {{ A }} {t}");
            }
            insert_item(w, f, Item::Raw(marked(1, &t)), r);
            done(kind, f, if syntactic(kind) { At::After } else { how(kind) })
        }
        10 | 11 => {
            let (kind, text) = *r.pick(DECL_MISTAKES);
            let fs = idl_files(w);
            let f = *r.pick(&fs);
            if kind == "second protocol" && !matches!(idl(w, f).kind, Kind::Proto { .. }) {
                return None;
            }
            insert_item(w, f, Item::Raw(marked(1, &marks_of(text))), r);
            let mut at = if syntactic(kind) { At::After } else { how(kind) };
            if kind.contains("import") && at == At::Covers {
                at = At::Import;
            }
            done(kind, f, at)
        }
        12 | 13 => {
            let fs: Vec<usize> = idl_files(w).into_iter().filter(|i| matches!(&w.files[*i].body, FileBody::Idl(f) if matches!(f.kind, Kind::Proto { .. }))).collect();
            if fs.is_empty() {
                return None;
            }
            let f = *r.pick(&fs);
            let (kind, text) = *r.pick(MSG_MISTAKES);
            let mut t = marked(1, &marks_of(text));
            if text.contains("ZzErr") {
                t = format!("error ZzErr {{ }} {t}");
            }
            insert_item(w, f, Item::Raw(t), r);
            done(kind, f, if syntactic(kind) { At::After } else { how(kind) })
        }
        14 => {
            // a type defined twice, in one file or in two
            let all: Vec<(usize, Name)> = w.all_types().iter().map(|(i, t)| (*i, t.name.clone())).collect();
            let (of, n) = r.pick(&all).clone();
            let fs = idl_files(w);
            let same = fs.contains(&of) && r.chance(50);
            let f = if same { of } else { *r.pick(&fs) };
            if n.ns.is_empty() && idl(w, f).ns.is_empty() && KEYWORDS.contains(&n.name.as_str()) {
                return None;
            }
            let (ann, name) = if !n.ns.is_empty() && r.chance(50) { (String::new(), format!("{}.`{}`", n.ns.split('.').map(|s| format!("`{s}`")).collect::<Vec<_>>().join("."), n.name)) } else { (format!("@namespace({}) ", json!(n.ns)), format!("`{}`", n.name)) };
            let name = m0(&name);
            let text = match r.below(3) {
                0 => format!("{ann}fixed {name}(3);"),
                1 => format!("{ann}enum {name} {{ A }}"),
                _ => format!("{ann}record {name} {{ }}"),
            };
            let d = Item::Raw(marked(1, &text));
            let json_after = matches!(w.files[of].body, FileBody::Json(_));
            if json_after {
                // definitions in JSON give way to earlier ones
                return None;
            }
            let x = idl(w, f);
            if f == of {
                // after the first one, so that this is the duplicate
                let k = x.items.iter().position(|i| matches!(i, Item::Type(t) if t.name == n))?;
                let at = k + 1 + r.below(x.items.len() - k);
                x.items.insert(at, d);
                return done("duplicate type", f, At::On);
            }
            insert_item(w, f, d, r);
            done("duplicate type in two files", f, At::Files(of))
        }
        15 => {
            // the protocol itself
            let fs: Vec<usize> = idl_files(w).into_iter().filter(|i| matches!(&w.files[*i].body, FileBody::Idl(f) if matches!(f.kind, Kind::Proto { .. }))).collect();
            if fs.is_empty() {
                return None;
            }
            let f = *r.pick(&fs);
            let x = idl(w, f);
            let Kind::Proto { props, .. } = &mut x.kind else { return None };
            props.clear();
            let a = *r.pick(PROTO_ANNOTS);
            // spelled raw, before everything else
            let mut w2 = w.clone();
            let st = Style::plain(r.u64());
            let body = render_idl(&w2, f, &st);
            let _ = &mut w2;
            Some(Planted { mist: Mist { kind: format!("reserved or invalid annotation {} on a protocol", &a[..a.find('(').unwrap()]), file: f, at: At::Covers, say: None }, text: vec![(f, insert_before_protocol(&body, &m0(a))?)], tok: None })
        }
        16 | 17 => {
            let fs = idl_files(w);
            let f = *r.pick(&fs);
            Some(Planted { mist: Mist { kind: "token".into(), file: f, at: At::After, say: None }, text: vec![], tok: Some(f) })
        }
        _ => plant_json(w, r),
    }
}
pub fn quote_plain(n: &str) -> String {
    n.split('.').map(|s| if KEYWORDS.contains(&s) { format!("`{s}`") } else { s.to_string() }).collect::<Vec<_>>().join(".")
}
/// annotations may stand anywhere before the keyword, but after the doc comment
fn insert_before_protocol(body: &str, a: &str) -> Option<String> {
    let mut from = 0;
    if body.trim_start().starts_with("/**") {
        from = body.find("*/")? + 2;
    }
    Some(format!("{} {a} {}", &body[..from], &body[from..]))
}
/// Mark every import statement of file `f` in the IDL files (ids from 100).
fn mark_imports(w: &mut World, f: usize) {
    let kind = kind_kw(&w.files[f].body);
    let target = w.files[f].path.clone();
    let mut id = 100;
    for i in idl_files(w) {
        let from = w.files[i].path.clone();
        for it in &mut idl(w, i).items {
            if let Item::Import { target: t, path: None } = it {
                if *t == f {
                    *it = Item::Raw(marked(id, &format!("import {kind} \"{}\";", rel(&from, &target))));
                    id += 1;
                }
            }
        }
    }
}
/// Break an imported JSON file.
fn plant_json(w: &mut World, r: &mut Rng) -> Option<Planted> {
    let js: Vec<usize> = (0..w.files.len()).filter(|i| matches!(w.files[*i].body, FileBody::Json(_))).collect();
    if js.is_empty() {
        return None;
    }
    let f = *r.pick(&js);
    mark_imports(w, f);
    let FileBody::Json(j) = &w.files[f].body else { unreachable!() };
    let mut v = json_value(j);
    let proto = j.proto;
    // paths of all definitions
    fn defs(v: &Value, at: String, out: &mut Vec<(String, String)>) {
        match v {
            Value::Object(o) => {
                if let Some(t) = o.get("type").and_then(|t| t.as_str()) {
                    if o.contains_key("name") && ["record", "error", "enum", "fixed"].contains(&t) {
                        out.push((at.clone(), t.into()));
                    }
                }
                for k in ["type", "items", "values"] {
                    if let Some(x) = o.get(k) {
                        defs(x, format!("{at}/{k}"), out);
                    }
                }
                for k in ["fields", "types", "request", "errors"] {
                    if let Some(Value::Array(a)) = o.get(k) {
                        for (i, x) in a.iter().enumerate() {
                            defs(x, format!("{at}/{k}/{i}"), out);
                        }
                    }
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    defs(x, format!("{at}/{i}"), out);
                }
            }
            _ => {}
        }
    }
    let mut ds = vec![];
    defs(&v, String::new(), &mut ds);
    let mk = |kind: &str, text: String| Some(Planted { mist: Mist { kind: format!("{kind} in imported JSON"), file: f, at: At::Import, say: None }, text: vec![(f, text)], tok: None });
    let good = v.to_string();
    match r.below(14) {
        0 => {
            // cut, but never just white space
            let mut n = r.below(good.len());
            while !good.is_char_boundary(n) {
                n -= 1;
            }
            return mk("truncated text", good[..n].to_string());
        }
        1 => {
            let t = ["", " ", "null", "5", "true", "{}", "[]", "\"no such\"", "{\"type\":\"record\"}", "// only a comment", "{\"name\":\"X\"}", "{\"type\": 5}", "{\"type\": null}"];
            // an empty union is odd but valid as a schema
            let pick = *r.pick(&t);
            if !proto && pick == "[]" {
                return None;
            }
            if pick == "{}" && proto {
                return mk("empty protocol", pick.into());
            }
            return mk("wrong kind of document", pick.into());
        }
        2 => return mk("trailing text", format!("{good} x")),
        3 => return mk("trailing comma", good.trim_end_matches('}').to_string() + ",}" + &"}".repeat(good.len() - good.trim_end_matches('}').len() - 1)),
        _ => {}
    }
    if proto && r.chance(if ds.is_empty() { 100 } else { 25 }) {
        // its messages
        let o = v.as_object_mut().unwrap();
        let ms = o.entry("messages").or_insert_with(|| json!({}));
        let n = r.below(3);
        let kind = match r.below(12) {
            0 => {
                o.insert("types".into(), r.pick(&[json!({}), json!("int"), json!({"R": {"type": "record", "fields": []}})]).clone());
                "types not an array"
            }
            1 => {
                o.insert("messages".into(), r.pick(&[json!([]), json!("m"), json!([{"name": "m", "request": [], "response": "null"}])]).clone());
                "messages not an object"
            }
            2 => {
                o.remove("protocol");
                "protocol without name"
            }
            k => {
                let ok = json!({"name": "p0", "type": "int"});
                let mut req = vec![ok.clone(); n];
                for (i, p) in req.iter_mut().enumerate() {
                    p["name"] = format!("p{i}").into();
                }
                let mut m = json!({"request": req, "response": "string"});
                let kind = match k {
                    3 => {
                        m["request"] = r.pick(&[json!({"a": "int"}), json!("int"), json!({"name": "a", "type": "int"})]).clone();
                        "request not an array"
                    }
                    4 => {
                        m["errors"] = r.pick(&[json!("string"), json!({"type": "error"})]).clone();
                        "errors not an array"
                    }
                    5 => {
                        m["one-way"] = r.pick(&[json!("true"), json!(1)]).clone();
                        "one-way not a boolean"
                    }
                    6 => {
                        m["one-way"] = true.into();
                        "one-way message with a response"
                    }
                    7 => {
                        m["response"] = r.pick(&[json!("no_such_name"), json!({"type": "array", "items": "no.such.Name"})]).clone();
                        "undefined response"
                    }
                    8 => {
                        m["request"].as_array_mut().unwrap().push(json!({"name": "zz", "type": "no_such_name"}));
                        "undefined parameter type"
                    }
                    9 => {
                        let a = m["request"].as_array_mut().unwrap();
                        a.push(json!({"name": "zz", "type": "int"}));
                        let at = r.below(a.len());
                        a.insert(at, json!({"name": "zz", "type": "string"}));
                        "duplicate parameter"
                    }
                    10 => {
                        m["errors"] = json!(["no_such_name"]);
                        "undefined error"
                    }
                    _ => {
                        m = r.pick(&[json!("null"), json!([]), json!(null)]).clone();
                        "message not an object"
                    }
                };
                ms.as_object_mut().unwrap().insert(["zz_msg", "aa"][r.below(2)].into(), m);
                kind
            }
        };
        return mk(kind, v.to_string());
    }
    if ds.is_empty() {
        return None;
    }
    let (at, t) = r.pick(&ds).clone();
    let d = v.pointer_mut(&at).unwrap().as_object_mut().unwrap();
    let kind = match (t.as_str(), r.below(13)) {
        (_, 12) => {
            let bad = r.pick(&[json!("Old"), json!(["Old", 1]), json!({"Old": 1}), json!([null]), json!(true)]).clone();
            match d.get_mut("fields").and_then(|f| f.as_array_mut()) {
                Some(fs) if r.chance(70) => {
                    let at = r.below(fs.len() + 1);
                    let (k, v) = if r.chance(50) { ("aliases", bad) } else { ("order", r.pick(&[json!("up"), json!(""), json!(1), json!(["ignore"]), json!("ignored")]).clone()) };
                    fs.insert(at, json!({"name": "zz_al", "type": "int", k: v}));
                    if k == "order" { "unknown order" } else { "aliases not an array of strings" }
                }
                _ => {
                    d.insert("aliases".into(), bad);
                    "aliases not an array of strings"
                }
            }
        }
        (_, 0) => {
            d.remove("name");
            "definition without name"
        }
        (_, 1) => {
            d.insert("name".into(), ["my-name", "9x", "", "a b", "x.9y"][r.below(5)].into());
            d.remove("namespace");
            "invalid name"
        }
        (_, 2) => {
            d.insert("namespace".into(), ["a..b", "9", "a-b"][r.below(3)].into());
            let n = d["name"].as_str().unwrap().rsplit('.').next().unwrap().to_string();
            d.insert("name".into(), n.into());
            "invalid namespace"
        }
        (_, 3) => {
            d.insert("type".into(), ["recrod", "no.such.Type", "interface"][r.below(3)].into());
            "unknown type"
        }
        ("record" | "error", 4) => {
            d.remove("fields");
            "record without fields"
        }
        ("record" | "error", 5) => {
            d.insert("fields".into(), json!({"a": 1}));
            "fields not an array"
        }
        ("record" | "error", k) => {
            let fs = d["fields"].as_array_mut().unwrap();
            let (x, kind) = match k {
                6 => (json!({"name": "zz"}), "field without type"),
                7 => (json!({"type": "int"}), "field without name"),
                8 => (json!({"name": "z-z", "type": "int"}), "invalid field name"),
                9 => {
                    let n = fs.first().and_then(|f| f["name"].as_str()).unwrap_or("dd").to_string();
                    if fs.is_empty() {
                        fs.push(json!({"name": "dd", "type": "int"}));
                    }
                    (json!({"name": n, "type": "string"}), "duplicate field")
                }
                10 => (json!({"name": "zz", "type": ["int", "null", "int"]}), "duplicate union branch"),
                _ => match r.below(6) {
                    0 => (json!({"name": "zz", "type": ["null", ["int"]]}), "nested union"),
                    1 => (json!({"name": "zz", "type": {"type": "array"}}), "array without items"),
                    2 => (json!({"name": "zz", "type": {"type": "map"}}), "map without values"),
                    3 => (json!({"name": "zz", "type": 7}), "type not a schema"),
                    4 => (json!({"name": "zz", "type": {"type": "array", "items": "no.such.Name"}}), "undefined name"),
                    _ => (json!({"name": "zz", "type": "no_such_name"}), "undefined name"),
                },
            };
            let at = if kind == "duplicate field" { fs.len() } else { r.below(fs.len() + 1) };
            fs.insert(at, x);
            kind
        }
        ("enum", 4) => {
            d.remove("symbols");
            "enum without symbols"
        }
        ("enum", 5) => {
            d.insert("symbols".into(), json!("A"));
            "symbols not an array"
        }
        ("enum", 6 | 7) => {
            d.insert("symbols".into(), json!(["A", "B", "A"]));
            d.remove("default");
            "duplicate symbol"
        }
        ("enum", 8 | 9) => {
            d.insert("symbols".into(), json!(["A", "B-C"]));
            d.remove("default");
            "invalid symbol"
        }
        ("enum", _) => {
            d.insert("default".into(), "no_such_symbol".into());
            "unknown enum default"
        }
        (_, 4..=6) => {
            d.remove("size");
            "fixed without size"
        }
        (_, _) => {
            d.insert("size".into(), r.pick(&[json!(-1), json!("4"), json!(1.5), json!(null), json!(4294967296u64)]).clone());
            "invalid size"
        }
    };
    let text = v.to_string();
    mk(kind, text)
}
/// Render file `f` with one token removed, doubled, replaced or the rest cut.
/// The last good token is marked 0.
fn token_edit(w: &World, f: usize, st: &Style, r: &mut Rng) -> Option<(String, String)> {
    let FileBody::Idl(x) = &w.files[f].body else { return None };
    let kinds: Vec<&str> = w.files.iter().map(|f| kind_kw(&f.body)).collect();
    let paths: Vec<String> = w.files.iter().map(|g| rel(&w.files[f].path, &g.path)).collect();
    let mut rr = R::new(st);
    rr.idl(x, &paths, &kinds);
    let idx: Vec<usize> = (0..rr.toks.len()).filter(|i| matches!(&rr.toks[*i], Tok::T(s) if ["{", "}", "(", ")", "<", ">", "[", "]", ";", ",", ":", "=", "@"].contains(&s.as_str()))).collect();
    if idx.is_empty() {
        return None;
    }
    let k = *r.pick(&idx);
    let Tok::T(s) = rr.toks[k].clone() else { unreachable!() };
    let kind;
    match r.below(4) {
        0 | 1 => {
            kind = format!("missing `{s}`");
            rr.toks.remove(k);
        }
        2 => {
            // doubled: not the at-sign's or equals sign's business only; all are wrong
            let t = *r.pick(&["{", "}", "(", ")", "<", ">", "]", ";", ",", ":", "=", "?", "throws", "%", "record", "\"str\"", "5"]);
            if t == s || t == "%" || (t == "," && s == "=") {
                return None;
            }
            // replacing may happen to be valid only for a few pairs
            kind = format!("`{t}` for `{s}`");
            rr.toks[k] = Tok::T(t.into());
        }
        _ => {
            // truncated while some bracket is open
            let mut depth = 0i32;
            for t in &rr.toks[..k] {
                if let Tok::T(t) = t {
                    match t.as_str() {
                        "{" | "(" | "<" | "[" => depth += 1,
                        "}" | ")" | ">" | "]" => depth -= 1,
                        _ => {}
                    }
                }
            }
            if depth <= 0 {
                return None;
            }
            kind = "truncated program".into();
            rr.toks.truncate(k);
        }
    }
    // mark the last token before the edit
    let upto = k.min(rr.toks.len());
    if let Some(p) = rr.toks[..upto].iter_mut().rev().find_map(|t| if let Tok::T(s) = t { Some(s) } else { None }) {
        *p = marked(0, p);
    }
    Some((rr.finish(), kind))
}

/// A world with one mistake, written to disk. None if nothing was planted.
pub fn planted(ctx: &mut Ctx) -> Option<(World, Built, Mist)> {
    let mut r = ctx.rng.fork();
    let dir = ctx.fresh();
    let x = planted_in(dir, if ctx.prop == "C10" { 0 } else { 20 }, &mut r)?;
    write_files(&x.1);
    Some(x)
}
pub fn planted_in(dir: std::path::PathBuf, p_default: u32, r: &mut Rng) -> Option<(World, Built, Mist)> {
    let mut r = r.fork();
    let cfg = Cfg {
        p_default,
        types: (1, 6),
        idl_imports: (0, r.below(4)),
        json_imports: (0, r.below(3)),
        mode: (60, 30, 10),
        ..Cfg::small()
    };
    let mut w = gen_::world(&cfg, &mut r);
    let p = (0..10).find_map(|_| {
        let mut w2 = w.clone();
        plant(&mut w2, &mut r).map(|p| (w2, p)).filter(|_| true).map(|x| x)
    });
    let (w2, p) = match p {
        Some(x) => x,
        None => return None,
    };
    // the closure above planted into a clone of the same world each time
    w = w2;
    let mut mist = p.mist.clone();
    let mut texts: Vec<String> = render_world(&w, &mut r, &mut style_of);
    for (f, t) in &p.text {
        texts[*f] = t.clone();
    }
    if let Some(f) = p.tok {
        let st = style_of(&mut r);
        let (t, k) = token_edit(&w, f, &st, &mut r)?;
        texts[f] = t;
        mist.kind = k;
    }
    let mut files = vec![];
    let mut marks = vec![];
    for (f, t) in w.files.iter().zip(texts) {
        let (t, m) = strip_marks(&t);
        files.push((f.path.clone(), t));
        marks.push(m);
    }
    let b = Built { main: dir.join(&w.files[0].path), dirs: vec![], dir, files, nls: vec![], marks };
    Some((w, b, mist))
}
/// The part of a source before the end-of-text character.
pub fn upto_sub(s: &str) -> &str {
    s.split('\u{1a}').next().unwrap()
}
fn is_source(shown: Option<&str>, text: &str) -> bool {
    shown == Some(upto_sub(text)) || shown == Some(text)
}
/// Does the error say where the mistake is? None: yes.
pub fn misplaced(b: &Built, m: &Mist, err: &Diag) -> Option<String> {
    let path = b.dir.join(&b.files[m.file].0);
    let canon = |p: &str| Path::new(p).canonicalize().ok();
    let (src_file, _) = match m.at {
        At::Import => (None, ()),
        _ => (Some(path.clone()), ()),
    };
    let diags = err.all();
    let with: Vec<&&Diag> = diags.iter().filter(|d| !d.labels.is_empty()).collect();
    if with.is_empty() {
        return Some("no diagnostic has a label".into());
    }
    // labels of the first diagnostic that has any
    let d = with[0];
    let Some(name) = &d.source else { return Some("the source of the label has no name".into()) };
    let Some(lab) = d.labels.first() else { unreachable!() };
    if m.at == At::Import {
        // on a marked import statement of some file
        for d in &with {
            let (Some(name), Some(lab)) = (&d.source, d.labels.first()) else { continue };
            for (i, (p, _)) in b.files.iter().enumerate() {
                if canon(name) == b.dir.join(p).canonicalize().ok() {
                    if !is_source(d.whole.as_deref(), &b.files[i].1) {
                        return Some(format!("the source shown is not the text of {p}"));
                    }
                    if b.marks[i].iter().any(|(k, r)| (*k >= 100 || (*k == 0 && i == m.file)) && lab.off >= r.start && lab.off + lab.len <= r.end && lab.len > 0) {
                        return None;
                    }
                }
            }
        }
        return Some(format!("label {}..{} of {name} is not on an import of {}", lab.off, lab.off + lab.len, b.files[m.file].0));
    }
    let want = src_file.unwrap();
    if let At::Files(o) = m.at {
        let other = b.dir.join(&b.files[o].0);
        return if canon(name) == want.canonicalize().ok() || canon(name) == other.canonicalize().ok() { None } else { Some(format!("the error is reported in {name}, not {} or {}", want.display(), other.display())) };
    }
    if canon(name) != want.canonicalize().ok() {
        return Some(format!("the error is reported in {name}, not {}", want.display()));
    }
    if !is_source(d.whole.as_deref(), &b.files[m.file].1) {
        return Some("the source shown is not the text of the file".into());
    }
    let mark = b.marks[m.file].iter().find(|x| x.0 == 0).map(|x| x.1.clone());
    let outer = b.marks[m.file].iter().find(|x| x.0 == 1).map(|x| x.1.clone());
    let (ls, le) = (lab.off, lab.off + lab.len);
    let text = &b.files[m.file].1;
    let show = |a: usize, e: usize| text.get(a..e).unwrap_or("?").to_string();
    match (&m.at, mark) {
        (At::Exact, Some(k)) if ls != k.start || le != k.end => Some(format!("the label is {ls}..{le} {:?}, the mistake {k:?} {:?}", show(ls, le), show(k.start, k.end))),
        (At::Starts, Some(k)) if ls != k.start || le == ls => Some(format!("the label is {ls}..{le} {:?}, the mistake {k:?} {:?}", show(ls, le), show(k.start, k.end))),
        (At::Covers, Some(k)) if ls > k.start || le < k.end => Some(format!("the label {ls}..{le} {:?} does not cover the mistake {k:?} {:?}", show(ls, le), show(k.start, k.end))),
        (At::Covers, Some(_)) => match outer {
            Some(o) if ls < o.start || le > o.end => Some(format!("the label {ls}..{le} {:?} goes beyond the declaration {o:?}", show(ls, le))),
            _ => None,
        },
        (At::On, Some(k)) => {
            let o = outer.unwrap_or(k);
            if ls < o.start || le > o.end || le == ls { Some(format!("the label {ls}..{le} {:?} is not in the declaration {o:?} {:?}", show(ls, le), show(o.start, o.end))) } else { None }
        }
        (At::After, Some(k)) => {
            // with « » around the wrong token: at or after its start; for token
            // edits: at or after the end of the last good token
            let lo = if outer.is_some() || m.kind.contains(" in a ") || m.kind.starts_with("digit") { k.start } else { k.end };
            if err.text().contains("missing closing") && ["{", "(", "[", "<"].contains(&show(ls, le).as_str()) {
                return None; // the bracket that is not closed
            }
            if ls <= k.start && le >= k.end && le - ls < 60 {
                return None;
            }
            if ls < lo { Some(format!("the syntax error is reported at {ls} {:?}, before the mistake at {lo}", show(ls, le))) } else { None }
        }
        _ => None,
    }
}
pub fn case(ctx: &mut Ctx) {
    let Some((_w, b, mist)) = planted(ctx) else { return };
    let prop = ctx.prop.clone();
    let ext = ctx.rng.chance(30);
    let out = if ext { obs::extract_path(&b.main, &b.dirs) } else { obs::convert_path(&b.main, &b.dirs) };
    ctx.eval();
    let cls = mist.kind.split(" in a ").next().unwrap().to_string();
    let group = if cls.contains('`') { cls.split('`').next().unwrap().trim().to_string() } else { cls.clone() };
    ctx.count(&format!("planted: {}", if group.is_empty() { "wrong token" } else { &group }), 1);
    let main = if mist.file == 0 { "the main file" } else { "an imported file" };
    ctx.count(&format!("mistakes in {main}"), 1);
    ctx.shape(&format!("{}{:?}", mist.kind, b.files));
    let files = &b.files;
    match &out {
        Out::Ok { .. } | Out::Schemata { .. } => {
            if prop == "C09" {
                ctx.fail(&format!("accepted-{cls}"), format!("{} in {} was accepted", mist.kind, b.files[mist.file].0), files)
            }
        }
        Out::Panic(p) => ctx.fail("panic", format!("{}: {p}", mist.kind), files),
        Out::Err { err, .. } => {
            if prop == "C10" {
                for d in err.all() {
                    if let Some(x) = &d.whole {
                        if !b.files.iter().any(|f| is_source(Some(x), &f.1)) {
                            ctx.fail("foreign-source", format!("{}: the source shown for {:?} is none of the files", mist.kind, d.source), files);
                        }
                    }
                }
                if let Some(x) = obs::malformed(err) {
                    ctx.fail("malformed", format!("{}: {x}", mist.kind), files);
                } else if let Some(x) = misplaced(&b, &mist, err) {
                    ctx.fail(&format!("misplaced-{cls}"), format!("{} in {}: {x}\nerror: {}", mist.kind, b.files[mist.file].0, err.text()), files);
                }
                if let Some(s) = &mist.say {
                    if !err.text().contains(s.as_str()) {
                        ctx.fail("unnamed", format!("{}: the error does not mention `{s}`: {}", mist.kind, err.text()), files);
                    }
                }
            }
        }
    }
    if b.files.iter().map(|f| f.1.len()).sum::<usize>() < 700 {
        let f = b.files.clone();
        ctx.sample(|| json!({"mistake": mist.kind, "files": f}));
    }
}
