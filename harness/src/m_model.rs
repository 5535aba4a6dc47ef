//! Reference-model monitors: worlds are generated, compiled by the real
//! library, and the output is compared with what the model says they denote.
use crate::ast::*;
use crate::canon::*;
use crate::gen_::{self, Cfg};
use crate::model::*;
use crate::obs::{self, Out};
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};

pub struct Built {
    pub dir: PathBuf,
    pub main: PathBuf,
    pub dirs: Vec<PathBuf>,
    /// (path in the world, text)
    pub files: Vec<(String, String)>,
    pub nls: Vec<&'static str>,
    /// per file: (mark, byte range)
    pub marks: Vec<Vec<(usize, std::ops::Range<usize>)>>,
}
pub fn style_of(r: &mut Rng) -> Style {
    if r.chance(30) { Style::plain(r.u64()) } else { Style::random(r) }
}
/// Spell the world and write its files.
pub fn build(ctx: &mut Ctx, w: &World, style: &mut dyn FnMut(&mut Rng) -> Style) -> Built {
    let dir = ctx.fresh();
    let mut r = ctx.rng.fork();
    let b = spell(w, &dir, &mut r, style);
    write_files(&b);
    b
}
pub fn spell(w: &World, dir: &Path, r: &mut Rng, style: &mut dyn FnMut(&mut Rng) -> Style) -> Built {
    let mut crlf = vec![];
    let texts = {
        let crlf = &mut crlf;
        let mut st = |r: &mut Rng| {
            let s = style(r);
            crlf.push(s.crlf);
            s
        };
        render_world(w, r, &mut st)
    };
    let mut nls = vec![];
    let mut k = 0;
    for f in &w.files {
        nls.push(match f.body {
            FileBody::Idl(_) => {
                k += 1;
                if crlf[k - 1] { "\r\n" } else { "\n" }
            }
            _ => "\n",
        });
    }
    let mut files = vec![];
    let mut marks = vec![];
    for (f, t) in w.files.iter().zip(texts) {
        let (t, m) = strip_marks(&t);
        files.push((f.path.clone(), t));
        marks.push(m);
    }
    Built { main: dir.join(&w.files[0].path), dirs: w.import_dirs.iter().map(|d| dir.join(d)).collect(), dir: dir.into(), files, nls, marks }
}
pub fn write_files(b: &Built) {
    for d in &b.dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    for (p, t) in &b.files {
        let p = b.dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
}
pub fn world_shape(m: &Model) -> String {
    let mut s = format!("{:?}{:?}", m.root, m.head.is_some());
    for k in &m.registry {
        s.push_str(&format!("{:?}", m.defs[k]));
    }
    s.push_str(&format!("{:?}", m.msgs));
    s
}
/// Compare a compiled document with the model's.
pub fn doc_diffs(w: &World, m: &Model, json: &Value) -> Vec<Diff> {
    let proto = matches!(w.main().kind, Kind::Proto { .. });
    let (got, mut diffs) = if proto { Reader::read_protocol(json) } else { Reader::read_schema(json) };
    diffs.extend(cmp_doc(&m.document(), &got));
    diffs
}
pub fn report(ctx: &mut Ctx, what: &str, diffs: Vec<Diff>, facets: &[&str], b: &Built) {
    for d in diffs {
        if facets.contains(&d.facet) {
            ctx.fail(&format!("{what}-{}", d.facet), d.msg, &b.files);
        } else {
            ctx.count(&format!("other property's facet: {}", d.facet), 1);
        }
    }
}
pub fn facets(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["malformed", "missing", "structure", "header", "order", "aliases", "type-aliases", "types", "messages", "placement", "define-once", "names"],
        "C02" => &["names", "type-aliases", "undefined-use", "missing", "malformed"],
        "C03" => &["define-once", "undefined-use", "placement", "malformed", "missing"],
        "C04" => &["defaults", "props", "structure", "types", "malformed"],
        "C05" => &["docs"],
        "C06" => &["props", "order", "aliases", "type-aliases", "names", "types", "malformed"],
        "C07" => &["missing", "placement", "messages", "names", "define-once", "undefined-use", "structure", "types"],
        "C08" => &["malformed", "missing", "structure", "order", "aliases", "type-aliases", "types", "messages", "props", "docs", "defaults", "names", "undefined-use", "define-once", "placement"],
        "C16" => &["malformed", "missing", "structure", "order", "aliases", "type-aliases", "types", "props", "docs", "defaults", "names", "undefined-use", "define-once", "placement"],
        "C19" => &["messages", "undefined-use", "define-once"],
        "C21" => &["types", "malformed", "props"],
        _ => &[],
    }
}
/// Compile the world's main file and judge document, extraction or both.
pub fn judge(ctx: &mut Ctx, w: &World, m: &Model, b: &Built, doc: bool, ext: bool, facets: &[&str]) -> Option<Value> {
    let mut res = None;
    let named = m.named_only;
    if doc {
        let single = w.files.len() == 1 && ctx.rng.chance(50);
        let out = if single { obs::convert_str(&b.files[0].1) } else { obs::convert_path(&b.main, &b.dirs) };
        ctx.eval();
        match &out {
            Out::Ok { json, .. } => {
                if named {
                    ctx.fail("accepted", "`idl` accepted a file with neither protocol nor schema".into(), &b.files);
                } else {
                    let d = doc_diffs(w, m, json);
                    report(ctx, "doc", d, facets, b);
                    ctx.count("documents compared", 1);
                    ctx.count("definitions compared", m.defs.len() as u64);
                    res = Some(json.clone());
                }
            }
            o if named => {
                if let Out::Panic(p) = o {
                    ctx.fail("panic", p.clone(), &b.files);
                }
            }
            o => ctx.fail("rejected", format!("a valid program was {}", o.describe()), &b.files),
        }
    }
    if ext {
        let single = w.files.len() == 1 && ctx.rng.chance(50);
        let out = if single { obs::extract_str(&b.files[0].1) } else { obs::extract_path(&b.main, &b.dirs) };
        ctx.eval();
        match &out {
            Out::Schemata { schemas, .. } => {
                let want: Vec<String> = m.registry.iter().map(|n| n.rsplit('.').next().unwrap().to_string()).collect();
                let got: Vec<String> = schemas.iter().map(|s| s.0.clone()).collect();
                if want != got {
                    ctx.fail("extract-list", format!("extracted names: expected {want:?}, got {got:?}"), &b.files);
                } else {
                    for (n, (_, s)) in m.registry.iter().zip(schemas) {
                        let (got, mut diffs) = Reader::read_schema(s);
                        diffs.extend(cmp_doc(&m.extracted(n), &got));
                        for d in &mut diffs {
                            d.msg = format!("extracted schema {n}: {}", d.msg);
                        }
                        report(ctx, "extract", diffs, facets, b);
                        ctx.count("extracted schemas compared", 1);
                    }
                }
            }
            o => ctx.fail("rejected", format!("extraction of a valid program was {}", o.describe()), &b.files),
        }
    }
    res
}
pub fn note(ctx: &mut Ctx, w: &World, m: &Model, b: &Built) {
    if !m.defs.is_empty() || m.root.is_some() {
        ctx.shape(&world_shape(m));
    }
    ctx.count("files", w.files.len() as u64);
    ctx.count("types", m.defs.len() as u64);
    ctx.count("messages", m.msgs.len() as u64);
    ctx.count("references", m.defs.values().map(|d| d.fields.iter().map(|f| count_refs(&f.ty)).sum::<u64>()).sum());
    if ctx.rng.chance(2) && b.files.iter().map(|f| f.1.len()).sum::<usize>() < 1500 {
        let f = b.files.clone();
        ctx.sample(|| json!(f));
    }
}
fn count_refs(t: &CTy) -> u64 {
    match t {
        CTy::Named(_) => 1,
        CTy::Array(t, _) | CTy::Map(t, _) => count_refs(t),
        CTy::Union(ts) => ts.iter().map(count_refs).sum(),
        _ => 0,
    }
}
pub fn cfg_for(prop: &str, r: &mut Rng) -> Cfg {
    let s = Cfg::small();
    match prop {
        "C01" => match r.below(10) {
            0 | 1 => Cfg::big(),
            2 | 3 => Cfg::imports(),
            4 => Cfg { symbols: (30, 120), fields: (20, 60), types: (1, 3), p_doc: 5, ..s },
            _ => s,
        },
        "C02" => Cfg { namespaces: (2, 4), p_kw: 20, null_ns: 40, p_ref: 80, types: (2, 9), idl_imports: (0, r.below(3)), json_imports: (0, r.below(2)), p_doc: 3, p_prop: 3, p_default: 10, ..s },
        "C03" => Cfg { p_ref: 85, types: (2, 10), depth: 2, p_doc: 5, p_prop: 5, msgs: (0, 4), idl_imports: (0, r.below(2)), ..s },
        "C05" => Cfg { p_doc: 75, p_prop: 10, idl_imports: (0, r.below(2)), ..s },
        "C06" => Cfg { p_prop: 55, p_alias: 40, p_doc: 10, ..s },
        "C07" => Cfg { idl_imports: (1, 5), json_imports: (0, 3), types: (2, 9), p_doc: 3, p_prop: 3, p_default: 10, ..s },
        "C08" => Cfg { idl_imports: (0, 1), json_imports: (1, 3), types: (3, 9), p_doc: 30, p_prop: 30, p_alias: 25, null_ns: 30, ..s },
        "C16" => Cfg { idl_imports: (0, r.below(3)), json_imports: (0, r.below(2)), mode: (40, 25, 35), ..s },
        "C19" => Cfg { msgs: (1, 6), idl_imports: (0, r.below(4)), json_imports: (0, r.below(3)), mode: (100, 0, 0), types: (2, 7), p_default: 40, p_alias: 25, ..s },
        "C21" => Cfg { depth: 5, p_prop: 35, p_ref: 20, p_doc: 3, types: (1, 4), fields: (1, 6), p_default: 45, msgs: (0, 4), ..s },
        _ => s,
    }
}
/// The generic case: one random world, judged.
pub fn case(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    let cfg = cfg_for(&prop, &mut ctx.rng);
    let mut r = ctx.rng.fork();
    let mut w = gen_::world(&cfg, &mut r);
    if prop == "C19" && ctx.rng.chance(60) || prop == "C07" && ctx.rng.chance(30) {
        let n = gen_::add_overrides(&mut w, &mut r);
        ctx.count("messages overriding an imported one", n as u64);
    }
    let b = build(ctx, &w, &mut style_of);
    let m = model(&w, &b.nls);
    note(ctx, &w, &m, &b);
    let f = facets(&prop);
    let ext = prop == "C16" || (matches!(prop.as_str(), "C02" | "C03") && ctx.rng.chance(40)) || ctx.rng.chance(5);
    let doc = prop != "C16" || ctx.rng.chance(20);
    judge(ctx, &w, &m, &b, doc, ext, f);
    match prop.as_str() {
        "C03" => ctx.count("forward or recursive references", forward(&m)),
        "C06" => ctx.count("annotations", m.defs.values().map(|d| d.attrs.len() as u64 + d.fields.iter().map(|f| f.attrs.len() as u64).sum::<u64>()).sum()),
        "C05" => ctx.count("docs", m.defs.values().map(|d| d.doc.is_some() as u64 + d.fields.iter().map(|f| f.doc.is_some() as u64).sum::<u64>()).sum()),
        _ => {}
    }
}
fn forward(m: &Model) -> u64 {
    fn go(t: &CTy, m: &Model, i: usize) -> u64 {
        match t {
            CTy::Named(n) => (m.registry.iter().position(|x| x == n).unwrap_or(0) >= i) as u64,
            CTy::Array(t, _) | CTy::Map(t, _) => go(t, m, i),
            CTy::Union(ts) => ts.iter().map(|t| go(t, m, i)).sum(),
            _ => 0,
        }
    }
    m.registry.iter().enumerate().map(|(i, k)| m.defs[k].fields.iter().map(|f| go(&f.ty, m, i)).sum::<u64>()).sum()
}
