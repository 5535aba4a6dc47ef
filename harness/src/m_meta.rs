//! Metamorphic monitors: two programs that must mean the same are compiled and
//! their results compared with each other; no model of the language is involved.
//! C14: two spellings of one program. C22: two arrangements of its declarations.
use crate::ast::*;
use crate::canon::*;
use crate::gen_::{self, Cfg};
use crate::m_model::*;
use crate::model::*;
use crate::obs::{self, Out};
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};

/// CRLF line ends show inside documentation text.
fn unix(v: &Value) -> Value {
    match v {
        Value::String(s) => Value::String(s.replace("\r\n", "\n")),
        Value::Array(a) => a.iter().map(unix).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), unix(v))).collect(),
        x => x.clone(),
    }
}
/// Declare variables of one type together or apart.
fn regroup(w: &mut World, r: &mut Rng) -> u64 {
    let mut n = 0;
    for f in &mut w.files {
        let FileBody::Idl(f) = &mut f.body else { continue };
        for it in &mut f.items {
            let Item::Type(TypeDecl { body: Body::Record { fields, .. }, .. }) = it else { continue };
            let mut out: Vec<FieldDecl> = vec![];
            for fd in std::mem::take(fields) {
                if fd.vars.len() > 1 && r.chance(60) {
                    // apart: each gets the declaration's doc unless it has its own
                    n += 1;
                    for mut v in fd.vars {
                        let d = v.doc.take().or(fd.doc.clone());
                        let (a, b) = if r.chance(50) { (d, None) } else { (None, d) };
                        v.doc = b;
                        out.push(FieldDecl { doc: a, ty: fd.ty.clone(), vars: vec![v] });
                    }
                } else if let Some(p) = out.last_mut().filter(|p| format!("{:?}", p.ty) == format!("{:?}", fd.ty) && r.chance(70)) {
                    n += 1;
                    if let Some(d) = p.doc.take() {
                        for v in &mut p.vars {
                            v.doc = v.doc.take().or(Some(d.clone()));
                        }
                    }
                    for mut v in fd.vars {
                        v.doc = v.doc.take().or(fd.doc.clone());
                        p.vars.push(v);
                    }
                } else {
                    out.push(fd);
                }
            }
            *fields = out;
        }
    }
    n
}
fn same_docs(v: &Value) -> Value {
    unix(v)
}
pub fn spelling(ctx: &mut Ctx) {
    let cfg = match ctx.rng.below(5) {
        0 => Cfg::imports(),
        4 => Cfg { p_default: 0, fields: (2, 9), p_doc: 40, ..Cfg::small() },
        1 => Cfg { p_doc: 50, p_prop: 30, p_default: 60, vars: 4, ..Cfg::small() },
        2 => Cfg { vars: 4, fields: (2, 9), p_ref: 70, p_default: 60, ..Cfg::small() },
        _ => Cfg { mode: (40, 25, 35), ..Cfg::small() },
    };
    let mut r = ctx.rng.fork();
    let mut w = gen_::world(&cfg, &mut r);
    // make neighbours with equal types likely
    for f in w.files.iter_mut().filter(|_| cfg.p_default == 0) {
        if let FileBody::Idl(f) = &mut f.body {
            for it in &mut f.items {
                if let Item::Type(TypeDecl { body: Body::Record { fields, .. }, .. }) = it {
                    for i in 1..fields.len() {
                        if r.chance(40) {
                            fields[i].ty = fields[i - 1].ty.clone();
                        }
                    }
                }
            }
        }
    }
    let a = build(ctx, &w, &mut |r| Style::plain(r.u64()));
    let mut w2 = w.clone();
    let moved = if ctx.rng.chance(50) { regroup(&mut w2, &mut r) } else { 0 };
    let ext = matches!(w.main().kind, Kind::Named) || ctx.rng.chance(25);
    let get = |b: &Built| if ext { obs::extract_path(&b.main, &b.dirs) } else { obs::convert_path(&b.main, &b.dirs) };
    let one = get(&a);
    ctx.count("declarations regrouped", moved);
    let n = if ctx.thorough { 3 } else { 2 };
    for k in 0..n {
        let b = build(ctx, &w2, &mut |r| if k == 0 && r.chance(20) { Style { crlf: true, ..Style::plain(r.u64()) } } else { Style::random(r) });
        let two = get(&b);
        ctx.eval();
        ctx.shape(&format!("{:?}", b.files));
        let mut files = a.files.clone();
        files.extend(b.files.iter().map(|(p, t)| (format!("respelled/{p}"), t.clone())));
        match (&one, &two) {
            (Out::Ok { json: x, .. }, Out::Ok { json: y, .. }) => {
                ctx.count("pairs of documents compared", 1);
                if same_docs(x) != same_docs(y) {
                    ctx.fail("spelling-changes-result", format!("two spellings of one program compile to different JSON: {}", first_diff(&same_docs(x), &same_docs(y), "$")), &files);
                }
            }
            (Out::Schemata { schemas: x, .. }, Out::Schemata { schemas: y, .. }) => {
                ctx.count("pairs of extractions compared", 1);
                let f = |v: &Vec<(String, Value)>| -> Value { v.iter().map(|(n, s)| json!([n, unix(s)])).collect() };
                if f(x) != f(y) {
                    ctx.fail("spelling-changes-extraction", format!("two spellings of one program extract to different schemas: {}", first_diff(&f(x), &f(y), "$")), &files);
                }
            }
            (Out::Panic(p), _) | (_, Out::Panic(p)) => ctx.fail("panic", p.clone(), &files),
            (x, y) if x.ok() != y.ok() => ctx.fail("spelling-changes-validity", format!("one spelling is {}, the other {}", x.describe(), y.describe()), &files),
            (x, _) => ctx.fail("rejected", format!("a valid program was {}", x.describe()), &files),
        }
        if ctx.rng.chance(2) && files.iter().map(|f| f.1.len()).sum::<usize>() < 2000 {
            ctx.sample(|| json!(files));
        }
    }
}
pub fn first_diff(a: &Value, b: &Value, at: &str) -> String {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return first_diff(p, q, &format!("{at}[{i}]"));
                }
            }
            format!("{at}: {} and {} elements", x.len(), y.len())
        }
        (Value::Object(x), Value::Object(y)) => {
            for (k, p) in x {
                match y.get(k) {
                    Some(q) if p == q => {}
                    Some(q) => return first_diff(p, q, &format!("{at}.{k}")),
                    None => return format!("{at}.{k}: only in the first ({})", cut(p)),
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    return format!("{at}.{k}: only in the second ({})", cut(&y[k]));
                }
            }
            format!("{at}: equal")
        }
        _ => format!("{at}: {} and {}", cut(a), cut(b)),
    }
}
fn cut(v: &Value) -> String {
    let s = v.to_string();
    s.chars().take(200).collect()
}

/// Full names of the types a type expression can reach.
fn closure(t: &Ty, decls: &HashMap<Name, &TypeDecl>, out: &mut HashSet<Name>) {
    t.visit(&mut |x| {
        if let TyK::Ref(n) = &x.k {
            if out.insert(n.clone()) {
                if let Some(TypeDecl { body: Body::Record { fields, .. }, .. }) = decls.get(n) {
                    for f in fields {
                        closure(&f.ty, decls, out);
                    }
                }
            }
        }
    });
}
/// For each type (full name): the types its defaults may depend on.
fn needs(w: &World) -> BTreeMap<String, HashSet<String>> {
    let all = w.all_types();
    let decls: HashMap<Name, &TypeDecl> = all.iter().map(|(_, d)| (d.name.clone(), *d)).collect();
    let mut m = BTreeMap::new();
    for (_, d) in &all {
        let mut out = HashSet::new();
        if let Body::Record { fields, .. } = &d.body {
            for f in fields {
                if f.vars.iter().any(|v| v.default.is_some()) {
                    closure(&f.ty, &decls, &mut out);
                }
            }
        }
        out.remove(&d.name);
        m.insert(d.name.full(), out.into_iter().map(|n| n.full()).collect());
    }
    m
}
/// Does `b` keep every pair of `a` in which the later type's defaults depend on
/// the earlier one?
fn keeps(need: &BTreeMap<String, HashSet<String>>, a: &[String], b: &[String]) -> bool {
    let pa: HashMap<&String, usize> = a.iter().enumerate().map(|(i, n)| (n, i)).collect();
    let pb: HashMap<&String, usize> = b.iter().enumerate().map(|(i, n)| (n, i)).collect();
    need.iter().all(|(t, ns)| {
        ns.iter().all(|n| match (pa.get(t), pa.get(n), pb.get(t), pb.get(n)) {
            (Some(ta), Some(na), Some(tb), Some(nb)) => na > ta || nb < tb,
            (None, _, None, _) | (_, None, _, None) => true,
            _ => false,
        })
    })
}
pub fn arrange(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let cfg = Cfg {
        types: (2, 10),
        p_ref: 70,
        p_default: [10, 35, 60][r.below(3)],
        p_doc: 25,
        msgs: (0, 5),
        idl_imports: (0, r.below(3)),
        json_imports: (0, r.below(2)),
        ..Cfg::small()
    };
    let w = gen_::world(&cfg, &mut r);
    let need = needs(&w);
    let nl = |w: &World| vec!["\n"; w.files.len()];
    let m = model(&w, &nl(&w));
    let style = |r: &mut Rng| Style { crlf: false, ..if r.chance(70) { Style::plain(r.u64()) } else { Style::random(r) } };
    let a = build(ctx, &w, &mut style.clone());
    let ext = ctx.rng.chance(30);
    let get = |b: &Built| if ext { obs::extract_path(&b.main, &b.dirs) } else { obs::convert_path(&b.main, &b.dirs) };
    let one = get(&a);
    let proto = matches!(w.main().kind, Kind::Proto { .. });
    let x = canon(&one, proto);
    for _ in 0..3 {
        let mut w2 = w.clone();
        let mut kinds = vec![];
        // permute
        if r.chance(80) {
            for f in &mut w2.files {
                if let FileBody::Idl(f) = &mut f.body {
                    if r.chance(70) {
                        r.shuffle(&mut f.items);
                    } else if f.items.len() > 1 {
                        let i = r.below(f.items.len());
                        let j = r.below(f.items.len());
                        f.items.swap(i, j);
                    }
                }
            }
            kinds.push("permuted");
        }
        // move type declarations into new imported files
        if kinds.is_empty() || r.chance(40) {
            for _ in 0..r.range(1, 2) {
                let fs: Vec<usize> = (0..w2.files.len()).filter(|i| matches!(w2.files[*i].body, FileBody::Idl(_))).collect();
                let i = *r.pick(&fs);
                let n = w2.files.len();
                let FileBody::Idl(f) = &mut w2.files[i].body else { unreachable!() };
                let mut moved = vec![];
                let mut at = None;
                let mut k = 0;
                let p = r.range(20, 90) as u32;
                while k < f.items.len() {
                    if matches!(f.items[k], Item::Type(_)) && r.chance(p) {
                        if at.is_none() || r.chance(30) {
                            at = Some(k);
                        }
                        moved.push(f.items.remove(k));
                    } else {
                        k += 1;
                    }
                }
                let Some(at) = at else { continue };
                let ns = f.ns.clone();
                f.items.insert(at.min(f.items.len()), Item::Import { target: n, path: None });
                let kind = match r.below(3) {
                    0 => Kind::Named,
                    1 => Kind::Schema { main: Ty::of(TyK::Array(Box::new(Ty::prim("int")))) },
                    _ => Kind::Proto { name: "ZzMoved".into(), ns_spell: NsSpell::Annot, doc: None, props: vec![] },
                };
                let dir = *r.pick(&["", "sub/", "zz/deep/"]);
                w2.files.push(File { path: format!("{dir}moved{n}.avdl"), body: FileBody::Idl(IdlFile { kind, ns, items: moved }) });
                kinds.push("moved");
            }
        }
        let m2 = model(&w2, &nl(&w2));
        if !keeps(&need, &m.registry, &m2.registry) {
            ctx.count("arrangements skipped: a default would come before its type", 1);
            continue;
        }
        let b = build(ctx, &w2, &mut style.clone());
        let two = get(&b);
        ctx.eval();
        ctx.shape(&format!("{:?}", m2.registry));
        let mut files = a.files.clone();
        files.extend(b.files.iter().map(|(p, t)| (format!("rearranged/{p}"), t.clone())));
        let y = canon(&two, proto);
        match (&x, &y) {
            (Ok(x), Ok(y)) => {
                for k in &kinds {
                    ctx.count(&format!("arrangements compared: {k}"), 1);
                }
                if m.registry != m2.registry {
                    ctx.count("arrangements with another order of definition", 1);
                }
                if x.len() != y.len() || x.keys().ne(y.keys()) {
                    ctx.fail("arrangement-changes-types", format!("types {:?} became {:?}", x.keys().collect::<Vec<_>>(), y.keys().collect::<Vec<_>>()), &files);
                } else {
                    for (k, p) in x {
                        let q = &y[k];
                        let mut d = vec![];
                        cmp_defs(&mut d, p, q);
                        cmp_msgs(&mut d, p, q);
                        if p.head != q.head {
                            d.push(diff("head", format!("protocol {:?} became {:?}", p.head, q.head)));
                        }
                        if p.root != q.root {
                            d.push(diff("root", format!("schema {:?} became {:?}", p.root, q.root)));
                        }
                        for d in d {
                            ctx.fail(&format!("arrangement-{}", d.facet), format!("{k}: {}", d.msg), &files);
                        }
                    }
                }
            }
            (Err(e), _) => ctx.fail("rejected", format!("a valid program was {e}"), &files),
            (_, Err(e)) => ctx.fail("rejected-arrangement", format!("a rearranged valid program was {e}"), &files),
        }
        if ctx.rng.chance(2) && files.iter().map(|f| f.1.len()).sum::<usize>() < 2500 {
            ctx.sample(|| json!(files));
        }
    }
}
fn canon(o: &Out, proto: bool) -> Result<BTreeMap<String, CDoc>, String> {
    let mut m = BTreeMap::new();
    let mut put = |k: String, (d, bad): (CDoc, Vec<Diff>)| -> Result<(), String> {
        if let Some(b) = bad.first() {
            return Err(format!("compiled to a malformed document: {}", b.msg));
        }
        m.insert(k, d);
        Ok(())
    };
    match o {
        Out::Ok { json, .. } => put("document".into(), if proto { Reader::read_protocol(json) } else { Reader::read_schema(json) })?,
        Out::Schemata { schemas, .. } => {
            for (n, s) in schemas {
                let (d, bad) = Reader::read_schema(s);
                let full = match &d.root {
                    Some(CTy::Named(f)) => f.clone(),
                    _ => n.clone(),
                };
                put(full, (d, bad))?;
            }
        }
        o => return Err(o.describe()),
    }
    Ok(m)
}

/// Findings on record, tried again.
pub fn known_c14(ctx: &mut Ctx) {
    let a = "protocol P { /**/ record A { int a; } /**/ record B { int b; } }";
    let b = a.replace("/**/", "/* */");
    ctx.eval();
    let (x, y) = (obs::convert_str(a), obs::convert_str(&b));
    if x.json() != y.json() {
        ctx.fail("empty-comments", format!("two empty comments `/**/` change the result: {}", x.json().map(|j| j["types"].to_string()).unwrap_or_else(|| x.describe())), &[("main.avdl".into(), a.into())]);
    }
}
