//! C18: a default value is accepted exactly when it is valid for its type.
use crate::ast::*;
use crate::gen_::{self, Cfg, G};
use crate::m_model::*;
use crate::model::*;
use crate::obs::{self, Out};
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Value, json};
use std::collections::HashMap;

type Decls = HashMap<Name, TypeDecl>;
fn is_int(v: &Value, lo: i64, hi: i64) -> bool {
    v.as_i64().is_some_and(|n| lo <= n && n <= hi)
}
/// The rules for default values, written from the property's statement.
pub fn valid(t: &Ty, v: &Value, decls: &Decls) -> bool {
    let base = |p: &str| match p {
        "null" => v.is_null(),
        "boolean" => v.is_boolean(),
        "int" => is_int(v, i32::MIN as i64, i32::MAX as i64),
        "long" => is_int(v, i64::MIN, i64::MAX),
        "float" | "double" => v.is_number() || ["NaN", "Infinity", "-Infinity"].iter().any(|s| v == s),
        _ => v.is_string(),
    };
    match &t.k {
        TyK::Prim(p) => base(p),
        TyK::Kw(k) => base(crate::render::kw_schema(k).0),
        TyK::Decimal(..) => base("bytes"),
        TyK::Array(i) => v.as_array().is_some_and(|a| a.iter().all(|x| valid(i, x, decls))),
        TyK::Map(i) => v.as_object().is_some_and(|o| o.values().all(|x| valid(i, x, decls))),
        TyK::Union(ts) => ts.iter().any(|t| valid(t, v, decls)),
        TyK::Opt(i) => v.is_null() || valid(i, v, decls),
        TyK::Ref(n) => match &decls[n].body {
            Body::Record { fields, .. } => v.as_object().is_some_and(|o| {
                fields.iter().all(|f| {
                    f.vars.iter().all(|x| match o.get(&x.name) {
                        Some(y) => valid(&f.ty, y, decls),
                        None => x.default.is_some(),
                    })
                })
            }),
            _ => v.is_string(),
        },
        TyK::Raw(_) => unreachable!(),
    }
}
fn other(r: &mut Rng, was: &Value) -> Value {
    match r.below(14) {
        0 => Value::Null,
        1 => true.into(),
        2 => json!(0),
        3 => json!(i32::MAX as i64 + 1),
        4 => json!(i32::MIN as i64 - 1),
        5 => json!(1.5),
        6 => json!(1.0),
        7 => json!(""),
        8 => json!("NaN"),
        9 => json!("Infinity"),
        10 => json!([]),
        11 => json!({}),
        12 => match was {
            // nearly the same
            Value::Number(n) => {
                if let Some(i) = n.as_i64() {
                    r.pick(&[json!(i as f64), json!(i.to_string()), json!([i]), json!(i.wrapping_mul(1 << 20)), json!(i.wrapping_neg())]).clone()
                } else {
                    json!(n.to_string())
                }
            }
            Value::String(s) => r.pick(&[json!([s]), json!({ s: s }), json!(s.to_lowercase()), json!(s.len())]).clone(),
            Value::Null => json!("null"),
            Value::Bool(b) => json!(b.to_string()),
            v => json!([v]),
        },
        _ => gen_::value(r, 2),
    }
}
/// Make an array or an object inside a value long.
fn stretch(v: &mut Value, r: &mut Rng) -> bool {
    match v {
        Value::Array(a) if !a.is_empty() => {
            let k = r.below(a.len());
            if r.chance(40) && stretch(&mut a[k], r) {
                return true;
            }
            let n = *r.pick(&[5, 9, 17, 33, 65]);
            while a.len() < n {
                let x = a[r.below(a.len())].clone();
                a.push(x);
            }
            true
        }
        Value::Object(o) if !o.is_empty() => {
            let k = o.keys().nth(r.below(o.len())).unwrap().clone();
            if r.chance(60) && stretch(o.get_mut(&k).unwrap(), r) {
                return true;
            }
            // (members of no field, where it is a record's)
            let x = o[&k].clone();
            for i in 0..*r.pick(&[4, 9, 20, 40]) {
                o.insert(format!("k{i}"), x.clone());
            }
            true
        }
        _ => false,
    }
}
/// Change one place inside a value.
fn mutate(v: &mut Value, r: &mut Rng) {
    let inner = match v {
        Value::Array(a) => a.len(),
        Value::Object(o) => o.len(),
        _ => 0,
    };
    if inner > 0 && r.chance(75) {
        let k = r.below(inner);
        match v {
            Value::Array(a) => {
                if r.chance(10) {
                    let x = other(r, &a[k]);
                    a.push(x);
                } else {
                    mutate(&mut a[k], r)
                }
            }
            Value::Object(o) => {
                let key = o.keys().nth(k).unwrap().clone();
                match r.below(10) {
                    0 | 1 => {
                        o.remove(&key);
                    }
                    2 => {
                        let x = other(r, &Value::Null);
                        o.insert("no_such_field".into(), x);
                    }
                    3 => {
                        let x = o.remove(&key).unwrap();
                        o.insert(key.to_uppercase() + "x", x);
                    }
                    _ => mutate(o.get_mut(&key).unwrap(), r),
                }
            }
            _ => {}
        }
        return;
    }
    *v = other(r, v);
}
fn depth(v: &Value) -> u64 {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(a) => 1 + a.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}
pub fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let cfg = Cfg {
        types: (2, 9),
        fields: (0, 4),
        depth: 2,
        p_ref: 60,
        p_default: 30,
        p_doc: 3,
        p_prop: 8,
        msgs: (0, 1),
        idl_imports: (0, r.below(4)),
        json_imports: (0, r.below(3)),
        mode: (50, 40, 10),
        ..Cfg::small()
    };
    let w0 = gen_::world(&cfg, &mut r);
    for _ in 0..3 {
        let mut w = w0.clone();
        // a new record somewhere; what is defined before it may be used
        let fs: Vec<usize> = (0..w.files.len()).filter(|i| matches!(w.files[*i].body, FileBody::Idl(_))).collect();
        let f = *r.pick(&fs);
        let FileBody::Idl(x) = &mut w.files[f].body else { unreachable!() };
        let ns = x.ns.clone();
        let name = Name::new(&ns, "ZzDef");
        let at = if r.chance(50) { x.items.len() } else { r.below(x.items.len() + 1) };
        let error = r.chance(20);
        let decl = |fields| Item::Type(TypeDecl { name: name.clone(), ns_spell: NsSpell::Inherit, doc: None, props: vec![], aliases: None, body: Body::Record { error, fields } });
        x.items.insert(at, decl(vec![]));
        let m = model(&w, &vec!["\n"; w.files.len()]);
        let Some(pos) = m.registry.iter().position(|n| *n == name.full()) else { continue };
        let before: Vec<&String> = m.registry[..pos].iter().collect();
        let decls: Decls = w.all_types().into_iter().map(|(_, d)| (d.name.clone(), d.clone())).collect();
        // every type that such a type can reach must come before as well
        let mut ok: Vec<(Name, char)> = vec![];
        for n in decls.keys() {
            let mut seen = std::collections::HashSet::new();
            let mut todo = vec![n.clone()];
            while let Some(n) = todo.pop() {
                if seen.insert(n.clone()) {
                    if let Body::Record { fields, .. } = &decls[&n].body {
                        for f in fields {
                            f.ty.visit(&mut |t| {
                                if let TyK::Ref(n) = &t.k {
                                    todo.push(n.clone())
                                }
                            });
                        }
                    }
                }
            }
            if seen.iter().all(|n| before.contains(&&n.full())) {
                ok.push((n.clone(), 'r'));
            }
        }
        ok.sort();
        let vis: Vec<usize> = (0..ok.len()).collect();
        let cfg2 = Cfg { depth: 3, p_ref: 75, ..cfg.clone() };
        let mut g = G { cfg: &cfg2, r: r.fork(), names: ok, json: false };
        let mut ty = g.ty(&ns, &vis, if r.chance(30) { 1 } else { 3 }, false);
        for _ in 0..3 {
            // prefer types that lead to named ones
            let mut has = false;
            ty.visit(&mut |t| has |= matches!(t.k, TyK::Ref(_)));
            if !has && !vis.is_empty() {
                ty = g.ty(&ns, &vis, 2, false);
            }
        }
        let mut val = match gen_::default_for(&ty, &decls, &mut r, 6) {
            Some(v) if r.chance(90) => v,
            _ => gen_::value(&mut r, 3),
        };
        if r.chance(15) && stretch(&mut val, &mut r) {
            ctx.count("long default values", 1);
        }
        for _ in 0..[0, 0, 1, 1, 1, 2][r.below(6)] {
            mutate(&mut val, &mut r);
        }
        let want = valid(&ty, &val, &decls);
        // the field among others, alone or sharing its type
        let mk = |n: &str, d: Option<Value>| Var { name: n.into(), doc: None, props: vec![], aliases: None, order: None, default: d, raw_default: None };
        let mut vars = vec![mk("zz", Some(val.clone()))];
        if r.chance(30) {
            vars.insert(0, mk("zy", None));
        }
        if r.chance(15) {
            let d = gen_::default_for(&ty, &decls, &mut r, 5).filter(|d| valid(&ty, d, &decls));
            vars.push(mk("za", d));
        }
        let mut fields = vec![FieldDecl { doc: None, ty: ty.clone(), vars }];
        if r.chance(40) {
            fields.insert(r.below(2), FieldDecl { doc: None, ty: Ty::prim("int"), vars: vec![mk("n", Some(json!(1)))] });
        }
        let FileBody::Idl(x) = &mut w.files[f].body else { unreachable!() };
        x.items[at] = decl(fields);
        let b = build(ctx, &w, &mut style_of);
        let named = matches!(w.main().kind, Kind::Named);
        let out = if named || r.chance(20) { obs::extract_path(&b.main, &b.dirs) } else { obs::convert_path(&b.main, &b.dirs) };
        ctx.eval();
        ctx.shape(&format!("{ty:?} {val}"));
        ctx.count(if want { "valid defaults" } else { "invalid defaults" }, 1);
        let mut refs = 0;
        ty.visit(&mut |t| refs += matches!(t.k, TyK::Ref(_)) as u64);
        ctx.count("defaults of types with references", (refs > 0) as u64);
        ctx.count("nested default values", (depth(&val) > 1) as u64);
        if f != 0 {
            ctx.count("defaults in imported files", 1);
        }
        match &out {
            Out::Panic(p) => ctx.fail("panic", p.clone(), &b.files),
            o if o.ok() != want => ctx.fail(
                if want { "valid-default-rejected" } else { "invalid-default-accepted" },
                format!("the default {val} of `zz` is {}, but the program was {}", if want { "valid" } else { "invalid" }, o.describe()),
                &b.files,
            ),
            _ => {}
        }
        if r.chance(3) && b.files.iter().map(|f| f.1.len()).sum::<usize>() < 900 {
            let fs = b.files.clone();
            ctx.sample(|| json!({"valid": want, "default": val, "files": fs}));
        }
    }
}
