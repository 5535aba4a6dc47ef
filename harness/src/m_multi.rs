//! C23: several independent mistakes are planted; one compilation must report
//! each of them once, in source order, each at its own place.
use crate::ast::*;
use crate::gen_::{self, Cfg};
use crate::m_model::*;
use crate::m_neg::upto_sub;
use crate::obs::{self, Diag, Out};
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;
use serde_json::json;
use std::collections::BTreeSet;

/// A mistake: the message names `name`; the marks in `file` are its places.
#[derive(Clone, Debug)]
struct Bad {
    name: String,
    /// mark numbers, one per place
    marks: Vec<usize>,
    /// what replaces the marked text when it is put right
    right: String,
}
pub fn base_world(r: &mut Rng, p_default: u32) -> World {
    let cfg = Cfg {
        types: (1, 6),
        idl_imports: (0, r.below(4)),
        json_imports: (0, r.below(3)),
        mode: (60, 30, 10),
        p_doc: 5,
        p_default,
        ..Cfg::small()
    };
    gen_::world(&cfg, r)
}
fn idls(w: &World) -> Vec<usize> {
    (0..w.files.len()).filter(|i| matches!(w.files[*i].body, FileBody::Idl(_))).collect()
}
fn file(w: &mut World, f: usize) -> &mut IdlFile {
    match &mut w.files[f].body {
        FileBody::Idl(x) => x,
        _ => unreachable!(),
    }
}
fn var(n: String) -> Var {
    Var { name: n, doc: None, props: vec![], aliases: None, order: None, default: None, raw_default: None }
}
/// A type expression around the marked name.
fn around(t: String, r: &mut Rng) -> String {
    match r.below(9) {
        0 => format!("array<{t}>"),
        1 => format!("map<{t}>"),
        2 => format!("union {{ null, {t} }}"),
        3 => format!("union {{ {t}, int }}"),
        4 => format!("{t}?"),
        5 => format!("array<map<union {{ string, {t}, null }}>>"),
        _ => t,
    }
}
/// Put `t` somewhere into file `f`; `n` makes names unique. Returns the
/// namespace in which a simple name at this place is looked up.
pub fn place(w: &mut World, f: usize, t: String, n: usize, used_main: &mut bool, r: &mut Rng) -> (String, &'static str) {
    let x = file(w, f);
    let ns = x.ns.clone();
    let proto = matches!(x.kind, Kind::Proto { .. });
    let at = r.below(x.items.len() + 1);
    loop {
        match r.below(8) {
            0 if proto => {
                let t = around(t, r);
                x.items.insert(at, Item::Raw(format!("{t} zzm{n}(int a);")));
                return (ns, "response");
            }
            1 if proto => {
                let t = around(t, r);
                x.items.insert(at, Item::Raw(format!("void zzm{n}(int a, {t} b, string c);")));
                return (ns, "parameter");
            }
            2 if proto => {
                x.items.insert(at, Item::Raw(format!("error ZzEr{n} {{ }} string zzm{n}() throws ZzEr{n}, {t};")));
                return (ns, "throws clause");
            }
            3 | 4 if !*used_main => {
                if let Kind::Schema { main } = &mut x.kind {
                    *main = Ty::of(TyK::Raw(around(t, r)));
                    *used_main = true;
                    return (ns, "schema declaration");
                }
            }
            5 | 6 => {
                let recs: Vec<usize> = (0..x.items.len()).filter(|i| matches!(&x.items[*i], Item::Type(TypeDecl { body: Body::Record { .. }, .. }))).collect();
                if recs.is_empty() {
                    continue;
                }
                let k = *r.pick(&recs);
                if let Item::Type(TypeDecl { name, body: Body::Record { fields, .. }, .. }) = &mut x.items[k] {
                    let mut vars = vec![var(format!("zzf{n}"))];
                    if r.chance(20) {
                        vars.push(var(format!("zzg{n}")));
                    }
                    if r.chance(20) {
                        // a default that cannot be judged
                        vars[0].raw_default = Some("{\"a\": [1]}".into());
                    }
                    let t = around(t, r);
                    let at = r.below(fields.len() + 1);
                    let has = fields.iter().any(|f| f.vars.iter().any(|v| v.default.is_some()));
                    if has || t.starts_with("array") || t.starts_with("map") {
                        vars[0].raw_default = None;
                    }
                    fields.insert(at, FieldDecl { doc: None, ty: Ty::of(TyK::Raw(t)), vars });
                    return (name.ns.clone(), "field of an existing record");
                }
            }
            7 => {
                let t = around(t, r);
                let kw = *r.pick(&["record", "error"]);
                // `@namespace` of the record counts inside it
                if r.chance(30) {
                    x.items.insert(at, Item::Raw(format!("@namespace(\"zz.ns{n}\") {kw} ZzNew{n} {{ int a; {t} b; int c; }}")));
                    return (format!("zz.ns{n}"), "field of a new record");
                }
                x.items.insert(at, Item::Raw(format!("{kw} ZzNew{n} {{ int a; {t} b; int c; }}")));
                return (ns, "field of a new record");
            }
            _ => {}
        }
    }
}
fn list(e: &Diag) -> Vec<&Diag> {
    e.all()
}
struct Texts {
    files: Vec<(String, String)>,
    marks: Vec<Vec<(usize, std::ops::Range<usize>)>>,
}
/// Judge a report against the mistakes that are there.
fn judge(ctx: &mut Ctx, what: &str, out: &Out, bads: &[&Bad], prefix: &str, exact: bool, b: &Built, t: &Texts) {
    let err = match out {
        Out::Err { err, .. } => err,
        Out::Panic(p) => return ctx.fail("panic", p.clone(), &t.files),
        _ => return ctx.fail("accepted", format!("{what}: {} mistakes were accepted: {bads:?}", bads.len()), &t.files),
    };
    if let Some(m) = obs::malformed(err) {
        ctx.fail("malformed", format!("{what}: {m}"), &t.files);
    }
    let ds = list(err);
    let mut places: Vec<(usize, usize)> = vec![];
    let mut taken = vec![false; ds.len()];
    for bad in bads {
        let says = |d: &Diag| d.chain.iter().any(|c| c.split(['\n', ';']).any(|l| l.trim_end_matches('.').ends_with(&format!("{prefix}{}", bad.name)) || l.contains(&format!("{prefix}{} ", bad.name)) || l.contains(&format!("{prefix}{},", bad.name)) || l.contains(&format!(", {},", bad.name)) || l.ends_with(&format!(", {}", bad.name))));
        let hits: Vec<usize> = (0..ds.len()).filter(|i| says(ds[*i])).collect();
        if hits.len() != 1 {
            let all: Vec<String> = ds.iter().map(|d| d.chain.join(": ")).collect();
            ctx.fail(if hits.is_empty() { "unreported" } else { "repeated" }, format!("{what}: `{}` is reported {} times, expected once; the errors are {all:?}", bad.name, hits.len()), &t.files);
            continue;
        }
        let k = hits[0];
        taken[k] = true;
        if bad.marks.is_empty() {
            continue; // in a JSON file
        }
        let d = ds[k];
        let canon = |p: &str| std::path::Path::new(p).canonicalize().ok();
        let f = (0..t.files.len()).find(|i| d.source.is_some() && d.source.as_deref().and_then(canon) == b.dir.join(&t.files[*i].0).canonicalize().ok());
        let (Some(f), Some(l)) = (f, d.labels.first()) else {
            ctx.fail("unlocated", format!("{what}: the error about `{}` has no place: {:?} {:?}", bad.name, d.source, d.labels), &t.files);
            continue;
        };
        let on = t.marks[f].iter().find(|m| bad.marks.contains(&m.0) && if exact { l.off == m.1.start && l.off + l.len == m.1.end } else { l.off < m.1.end && l.off + l.len > m.1.start && l.off >= m.1.start && l.off + l.len <= m.1.end });
        match on {
            None => ctx.fail("elsewhere", format!("{what}: the error about `{}` is labelled {}..{} in {}", bad.name, l.off, l.off + l.len, t.files[f].0), &t.files),
            Some(m) => {
                // the first place of the name in that file
                if t.marks[f].iter().any(|o| bad.marks.contains(&o.0) && o.1.start < m.1.start) {
                    ctx.fail("later-place", format!("{what}: `{}` is reported at {} although it occurs earlier", bad.name, m.1.start), &t.files);
                }
                places.push((k, f * 10_000_000 + m.1.start));
            }
        }
    }
    for (k, x) in taken.iter().enumerate() {
        if !x {
            ctx.fail("unfounded", format!("{what}: an error about something else: {}", ds[k].text()), &t.files);
        }
    }
    places.sort();
    for f in 0..t.files.len() {
        let seq: Vec<usize> = places.iter().filter(|p| p.1 / 10_000_000 == f).map(|p| p.1 % 10_000_000).collect();
        if seq.windows(2).any(|w| w[0] > w[1]) {
            ctx.fail("order", format!("{what}: the errors are not in source order: {seq:?}"), &t.files);
        }
    }
    ctx.count("mistakes found in reports", bads.len() as u64);
}
fn run(ctx: &mut Ctx, w: &World, b: &Built, ext: bool) -> Out {
    let _ = &ctx;
    if ext || matches!(w.main().kind, Kind::Named) { obs::extract_path(&b.main, &b.dirs) } else { obs::convert_path(&b.main, &b.dirs) }
}
fn undefined(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let mut w = base_world(&mut r, 0);
    let fs = idls(&w);
    let k = if r.chance(3) { r.range(30, 130) } else { r.range(2, 8) };
    let one = r.chance(70).then(|| *r.pick(&fs));
    let mut used: Vec<bool> = vec![false; w.files.len()];
    let mut bads: Vec<Bad> = vec![];
    let mut homes: Vec<(usize, String)> = vec![];
    let taken: BTreeSet<String> = w.all_types().iter().map(|t| t.1.name.name.clone()).collect();
    let mut mark = 2;
    let mut sites = 0;
    for i in 0..k {
        let f = one.unwrap_or_else(|| *r.pick(&fs));
        let (spell, full) = match r.below(4) {
            0 => {
                let n = format!("zz.u{}.Name{i}", r.below(2));
                (n.clone(), Some(n))
            }
            // differing in the namespace only, or in letter case only
            1 if !taken.contains("Zz_same") => {
                let n = format!("zz.same{i}.Zz_same");
                (n.clone(), Some(n))
            }
            2 => (format!("Zz_U{}{}", if r.chance(50) { "n" } else { "N" }, i), None),
            _ => (format!("Zz_undefined_{}", k - i), None),
        };
        // quoted names have the quotes in the label
        let text = if r.chance(15) { format!("`{}`", spell.replace('.', "`.`")) } else { spell.clone() };
        let m = marked(mark, &text);
        let (ns, site) = place(&mut w, f, m, mark, &mut used[f], &mut r);
        ctx.count(&format!("undefined names in a {site}"), 1);
        sites += 1;
        let name = full.unwrap_or_else(|| if ns.is_empty() { spell.clone() } else { format!("{ns}.{spell}") });
        let mut marks = vec![mark];
        mark += 1;
        if bads.iter().any(|b| b.name == name) {
            return;
        }
        if r.chance(25) {
            // once more, spelled in full
            let sp = if name.contains('.') { name.clone() } else { spell.clone() };
            let f2 = one.unwrap_or_else(|| *r.pick(&fs));
            let m = marked(mark, &sp);
            let (ns2, _) = place(&mut w, f2, m, mark, &mut used[f2], &mut r);
            if !name.contains('.') && !ns2.is_empty() {
                return;
            }
            marks.push(mark);
            mark += 1;
            sites += 1;
        }
        homes.push((f, name.clone()));
        bads.push(Bad { name, marks, right: String::new() });
    }
    // undefined names of an imported JSON file
    let js: Vec<usize> = (0..w.files.len()).filter(|i| matches!(&w.files[*i].body, FileBody::Json(j) if j.decls.iter().any(|d| matches!(d.body, Body::Record { .. })))).collect();
    if !js.is_empty() && r.chance(35) {
        let f = *r.pick(&js);
        if let FileBody::Json(j) = &mut w.files[f].body {
            for n in 0..r.range(1, 3) {
                let recs: Vec<usize> = (0..j.decls.len()).filter(|i| matches!(j.decls[*i].body, Body::Record { .. })).collect();
                let d = *r.pick(&recs);
                if let Body::Record { fields, .. } = &mut j.decls[d].body {
                    let nm = Name::new("zz.json", &format!("U{n}"));
                    fields.push(FieldDecl { doc: None, ty: Ty::of(TyK::Array(Box::new(Ty::of(TyK::Ref(nm.clone()))))), vars: vec![var(format!("zzj{n}"))] });
                    homes.push((0, nm.full()));
                    bads.push(Bad { name: nm.full(), marks: vec![], right: String::new() });
                    ctx.count("undefined names in a JSON file", 1);
                }
            }
        }
    }
    let ext = r.chance(25);
    let b = build(ctx, &w, &mut style_of);
    let t = Texts { files: b.files.clone(), marks: b.marks.clone() };
    let out = run(ctx, &w, &b, ext);
    ctx.eval();
    ctx.shape(&format!("{:?}", b.files));
    ctx.count("reports with several undefined names", 1);
    ctx.count("places of undefined names", sites);
    // names of JSON files are gathered in one message if there are no others
    let refs: Vec<&Bad> = bads.iter().collect();
    judge(ctx, &format!("{k} undefined names"), &out, &refs, "Undefined name: ", true, &b, &t);
    if b.files.iter().map(|f| f.1.len()).sum::<usize>() < 700 {
        ctx.sample(|| json!({"files": t.files, "undefined": bads.iter().map(|b| &b.name).collect::<Vec<_>>()}));
    }
    // define one of them at the end of its file: the others are still reported
    let c = r.below(bads.len());
    let (f, name) = &homes[c];
    let fixed: Vec<&Bad> = bads.iter().filter(|b| b.name != *name).collect();
    if upto_sub(&b.files[*f].1) != b.files[*f].1 {
        return;
    }
    let FileBody::Idl(x) = &w.files[*f].body else { unreachable!() };
    if !name.contains('.') && !x.ns.is_empty() {
        return;
    }
    let decl = format!("error {} {{ }}", quote_ident(name, &mut r, false));
    let mut t2 = Texts { files: t.files.clone(), marks: t.marks.clone() };
    let txt = &mut t2.files[*f].1;
    if matches!(x.kind, Kind::Proto { .. }) {
        let p = crate::m_warn::tokens(txt).iter().rev().find(|x| x.1 == "}").unwrap().0;
        txt.insert_str(p, &format!(" {decl} "));
    } else {
        txt.push_str(&format!("\n{decl}\n"));
    }
    std::fs::write(b.dir.join(&t2.files[*f].0), &t2.files[*f].1).unwrap();
    let out = run(ctx, &w, &b, ext);
    ctx.eval();
    if fixed.is_empty() {
        return;
    }
    if fixed.iter().all(|b| b.marks.is_empty()) {
        return;
    }
    ctx.count("reports after one name was defined", 1);
    judge(ctx, &format!("after `{name}` was defined"), &out, &fixed, "Undefined name: ", true, &b, &t2);
}
fn defaults(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let mut w = base_world(&mut r, 20);
    let fs = idls(&w);
    let f = *r.pick(&fs);
    // the named types the defaults depend on, defined before
    let pre = if r.chance(40) { "zz.def." } else { "" };
    let helpers = [format!("enum {pre}ZzEn {{ A, B }}"), format!("fixed {pre}ZzFx(2);"), format!("record {pre}ZzRc {{ int a; string b = \"x\"; }}")];
    let kinds: &[(&str, &[&str], &[&str])] = &[
        ("R", &["{}", "7", "{\"a\": \"s\"}", "{\"a\": 1, \"b\": 2}", "null", "[]"], &["{\"a\": 1}", "{\"a\": -3, \"b\": \"\"}"]),
        ("array<R>", &["[{\"a\": 1}, {}]", "[3]"], &["[]", "[{\"a\": 2}]"]),
        ("map<E>", &["{\"k\": 3}", "{\"k\": \"A\", \"l\": null}"], &["{}", "{\"k\": \"A\"}"]),
        ("union { E, int }", &["true", "1.5", "[]"], &["\"A\"", "3"]),
        ("F", &["4", "{}", "null"], &["\"\\u0001\\u0002\""]),
        ("E", &["0", "[\"A\"]", "true"], &["\"A\""]),
        ("R?", &["[]", "\"x\"", "{\"b\": \"\"}"], &["null", "{\"a\": 2}"]),
        ("array<union { null, F }>", &["[null, false]", "[3]"], &["[null]"]),
    ];
    let nf = if r.chance(3) { r.range(20, 120) } else { r.range(2, 7) };
    let mut bads: Vec<Bad> = vec![];
    let mut body = String::new();
    let mut mark = 2;
    let mut n = 0;
    let owner = "ZzOwner";
    while bads.len() < nf {
        let (t, bad, good) = *r.pick(kinds);
        let t: String = t.replace('R', &format!("{pre}ZzRc")).replace("E", &format!("{pre}ZzEn")).replace("F", &format!("{pre}ZzFx"));
        body.push_str(&t);
        let many = if r.chance(30) { 3 } else { 1 };
        for v in 0..many {
            if v > 0 {
                body.push(',');
            }
            let name = format!("zz{n}");
            n += 1;
            if r.chance(70) {
                body.push(' ');
                let x = *r.pick(bad);
                body.push_str(&marked(mark, &format!("{name} = {x}")));
                bads.push(Bad { name: name.clone(), marks: vec![mark], right: format!("{name} = {}", r.pick(good)) });
                mark += 1;
            } else {
                body.push_str(&format!(" {name} = {}", r.pick(good)));
            }
        }
        body.push_str("; ");
        if r.chance(20) {
            body.push_str(&format!("int zzi{n} = 3; "));
        }
    }
    let x = file(&mut w, f);
    let at = r.below(x.items.len() + 1);
    x.items.insert(at, Item::Raw(format!("record {owner} {{ {body}}}")));
    for h in &helpers {
        let p = r.below(at + 1);
        x.items.insert(p, Item::Raw(h.clone()));
    }
    let b = build(ctx, &w, &mut style_of);
    let t = Texts { files: b.files.clone(), marks: b.marks.clone() };
    let ext = r.chance(25);
    let out = run(ctx, &w, &b, ext);
    ctx.eval();
    ctx.shape(&format!("{:?}", b.files));
    ctx.count("reports with several invalid defaults", 1);
    let named: Vec<Bad> = bads.iter().map(|b| Bad { name: format!("{}` in", b.name), ..b.clone() }).collect();
    let refs: Vec<&Bad> = named.iter().collect();
    judge(ctx, "invalid defaults", &out, &refs, "Invalid default for field `", false, &b, &t);
    // put one right
    let c = r.below(bads.len());
    let rg = t.marks[f].iter().find(|m| m.0 == bads[c].marks[0]).unwrap().1.clone();
    let by = bads[c].right.len() as isize - (rg.end - rg.start) as isize;
    let mut t2 = Texts { files: t.files.clone(), marks: t.marks.clone() };
    t2.files[f].1.replace_range(rg.clone(), &bads[c].right);
    for m in t2.marks[f].iter_mut().filter(|m| m.1.start > rg.start) {
        m.1 = (m.1.start as isize + by) as usize..(m.1.end as isize + by) as usize;
    }
    std::fs::write(b.dir.join(&t2.files[f].0), &t2.files[f].1).unwrap();
    let left: Vec<&Bad> = named.iter().enumerate().filter(|x| x.0 != c).map(|x| x.1).collect();
    let out = run(ctx, &w, &b, ext);
    ctx.eval();
    if left.is_empty() {
        return;
    }
    ctx.count("reports after one default was put right", 1);
    judge(ctx, "after one default was put right", &out, &left, "Invalid default for field `", false, &b, &t2);
}
/// A misspelled name: the help must name an existing one.
fn suggestion(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let mut w = base_world(&mut r, 20);
    let fs = idls(&w);
    let prims = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
    let names: Vec<Name> = w.all_types().iter().map(|t| t.1.name.clone()).collect();
    let f = *r.pick(&fs);
    let (right, ns) = if names.is_empty() || r.chance(35) { (r.pick(&prims).to_string(), String::new()) } else { let n = r.pick(&names).clone(); (n.name, n.ns) };
    // edits that leave an identifier
    let mut c: Vec<char> = right.chars().collect();
    let edits = if c.len() >= 6 && r.chance(35) { 2 } else { 1 };
    for _ in 0..edits {
        let p = r.below(c.len());
        match r.below(4) {
            0 => c[p] = *r.pick(&['z', 'Q', '_']),
            1 => c.insert(p + r.below(2), *r.pick(&['z', 'Q', '_'])),
            2 => c[p] = if c[p].is_ascii_lowercase() { c[p].to_ascii_uppercase() } else { c[p].to_ascii_lowercase() },
            _ if c.len() > 2 => {
                c.remove(p);
            }
            _ => c.push('q'),
        }
    }
    let wrong: String = c.into_iter().collect();
    if wrong == right || names.iter().any(|n| n.name == wrong) || KEYWORDS.contains(&wrong.as_str()) || wrong.chars().next().unwrap().is_ascii_digit() || ["time", "timestamp"].contains(&wrong.as_str()) {
        return;
    }
    let spell = if ns.is_empty() || r.chance(40) { wrong.clone() } else { format!("{ns}.{wrong}") };
    let m = marked(2, &quote_ident(&spell, &mut r, false));
    let mut used = false;
    let (_, site) = place(&mut w, f, m, 2, &mut used, &mut r);
    let b = build(ctx, &w, &mut style_of);
    let out = run(ctx, &w, &b, false);
    ctx.eval();
    ctx.shape(&format!("{:?}", b.files));
    ctx.count("misspelled names", 1);
    let Out::Err { err, .. } = &out else {
        if let Out::Panic(p) = &out {
            ctx.fail("panic", p.clone(), &b.files);
        }
        return; // the misspelling is a name of its own
    };
    if !err.text().contains("Undefined name") {
        return;
    }
    let own: BTreeSet<String> = names.iter().map(|n| n.full()).chain(names.iter().map(|n| n.name.clone())).chain(prims.iter().map(|p| p.to_string())).collect();
    let help = err.all().iter().find_map(|d| d.help.clone());
    let q: Option<String> = help.as_ref().and_then(|h| h.split('`').nth(1).map(|s| s.to_string()));
    // types that planting itself added
    let extra = |s: &str| s.rsplit('.').next().unwrap().starts_with("ZzEr") || s.rsplit('.').next().unwrap().starts_with("ZzNew");
    // inside a namespace the right one would not be found either
    let hidden = ns.is_empty() && !prims.contains(&right.as_str()) && err.text().split("Undefined name: ").nth(1).is_some_and(|x| x.split([' ', '|', ':']).next().unwrap().contains('.'));
    match q {
        None if hidden => ctx.count("out of reach", 1),
        None if edits > 1 && wrong.len() < 5 => ctx.count("too short for a suggestion", 1),
        None => ctx.fail("no-suggestion", format!("`{spell}` for `{right}`: no suggestion: {help:?} in {}", err.text()), &b.files),
        Some(s) if !own.contains(&s) && !extra(&s) => ctx.fail("bad-suggestion", format!("`{spell}`: the suggested `{s}` does not exist"), &b.files),
        Some(s) => {
            // none is closer
            let full = err.text().split("Undefined name: ").nth(1).map(|x| x.split([' ', '|', ':']).next().unwrap().to_string()).unwrap_or_default();
            let dist = |n: &str| {
                let simple = distance(n.rsplit('.').next().unwrap(), &wrong);
                if prims.contains(&n) { simple } else { simple.min(distance(n, &full)) }
            };
            let d = dist(&s);
            // types without a namespace cannot be named inside one
            let min = names.iter().filter(|n| !n.ns.is_empty() || !full.contains('.')).map(|n| dist(&n.full())).chain(prims.iter().map(|p| dist(p))).min().unwrap();
            if d > min {
                ctx.fail("far-suggestion", format!("`{spell}` for `{right}`: `{s}` is suggested, {d} edits away, the nearest is {min}"), &b.files);
            }
            // following it helps (primitives cannot be thrown)
            if site == "throws clause" && prims.contains(&s.as_str()) {
                return;
            }
            let mk = b.marks[f].iter().find(|m| m.0 == 2).unwrap().1.clone();
            let mut fixed = b.files[f].1.clone();
            fixed.replace_range(mk, &if prims.contains(&s.as_str()) { s.clone() } else { quote_ident(&s, &mut r, false) });
            std::fs::write(b.dir.join(&b.files[f].0), &fixed).unwrap();
            ctx.eval();
            ctx.count("suggestions followed", 1);
            match run(ctx, &w, &b, false) {
                Out::Err { err: e, .. } if e.text().contains("Undefined name") => {
                    ctx.fail("vain-suggestion", format!("`{spell}`: `{s}` is suggested, but with that: {}", e.text()), &b.files);
                }
                _ => {}
            }
            ctx.count("suggestions checked", 1);
        }
    }
}
fn distance(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut d = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            d[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else {
                (d[i - 1][j] + 1).min(d[i][j - 1] + 1).min(d[i - 1][j - 1] + (a[i - 1] != b[j - 1]) as usize)
            };
        }
    }
    d[a.len()][b.len()]
}
pub fn case(ctx: &mut Ctx) {
    match ctx.rng.below(10) {
        0..=4 => undefined(ctx),
        5..=7 => defaults(ctx),
        _ => suggestion(ctx),
    }
}
