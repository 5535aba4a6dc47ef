//! Monitors about files: spellings of import paths (C07), directories (C16) and
//! importing the compiler's own output (C08).
use crate::ast::*;
use crate::canon::*;
use crate::gen_::{self, Cfg};
use crate::m_model::*;
use crate::model::*;
use crate::obs::{self, Out};
use crate::render::rel;
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

// ------------------------------------------------------------------ C07 paths
#[derive(Clone, Debug, PartialEq)]
enum Node {
    File(usize),
    Decoy,
    /// symbolic link to a path of the tree
    Link(String),
}
#[derive(Default)]
struct Tree {
    nodes: BTreeMap<String, Node>,
    dirs: BTreeSet<String>,
}
fn parent(p: &str) -> &str {
    p.rsplit_once('/').map(|x| x.0).unwrap_or("")
}
fn under(d: &str, p: &str) -> String {
    if d.is_empty() || p.starts_with('/') { p.into() } else { format!("{d}/{p}") }
}
impl Tree {
    fn add(&mut self, p: &str, n: Node) {
        self.nodes.insert(p.into(), n);
        let mut d = parent(p);
        while !d.is_empty() {
            self.dirs.insert(d.into());
            d = parent(d);
        }
    }
    /// The real path `p` (relative to the tree) leads to, as the system resolves it.
    fn walk(&self, p: &str) -> Option<String> {
        let mut at: Vec<String> = vec![];
        let parts: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        for (i, c) in parts.iter().enumerate() {
            if *c == ".." {
                at.pop()?;
                continue;
            }
            at.push(c.to_string());
            let here = at.join("/");
            match self.nodes.get(&here) {
                Some(Node::Link(t)) => at = self.walk(t)?.split('/').map(|s| s.to_string()).collect(),
                Some(_) if i + 1 < parts.len() => return None,
                Some(_) => {}
                None if self.dirs.contains(&here) => {}
                None => return None,
            }
        }
        Some(at.join("/"))
    }
    /// What an import of `p` from a file in `dir` finds, by the documented lookup.
    fn find(&self, p: &str, dir: &str, dirs: &[String], root: &str) -> Option<String> {
        if let Some(x) = p.strip_prefix(root) {
            return self.walk(x);
        }
        std::iter::once(dir).chain(dirs.iter().map(|d| d.as_str())).find_map(|d| self.walk(&under(d, p)))
    }
}
/// Another spelling of the relative path `p` from directory `d`.
fn respell(p: &str, d: &str, t: &Tree, r: &mut Rng) -> String {
    match r.below(6) {
        0 => format!("./{p}"),
        1 => format!(".//{p}"),
        2 => p.replacen('/', "//", 1),
        3 => {
            // through a directory that is there
            let subs: Vec<&String> = t.dirs.iter().filter(|x| parent(x) == d && x.as_str() != d).collect();
            if subs.is_empty() { p.into() } else { format!("{}/../{p}", r.pick(&subs).rsplit('/').next().unwrap()) }
        }
        4 if !d.is_empty() => format!("../{}/{p}", d.rsplit('/').next().unwrap()),
        5 => p.replacen('/', "/./", 1),
        _ => p.into(),
    }
}
pub fn paths(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let cfg = Cfg { idl_imports: (1, 5), json_imports: (0, 3), types: (2, 8), fields: (0, 3), p_doc: 2, p_prop: 2, p_default: 5, msgs: (0, 2), ..Cfg::small() };
    let mut w = gen_::world(&cfg, &mut r);
    let dir = ctx.fresh();
    let root = format!("{}/", dir.display());
    let mut t = Tree::default();
    // places and names
    let places = ["", "", "sub", "sub/deep", "o", "imp", "imp/x", "imp2", "imp2/x", "sp ace", "é\u{301}", "a.b", "sub/sub"];
    let stems = ["common", "types", "f", "é", "a b", "x.y", "import", "-"];
    for i in 0..w.files.len() {
        let ext = w.files[i].path.rsplit('.').next().unwrap().to_string();
        let ext = if r.chance(85) { ext } else { r.pick(&["txt", "idl", "AVDL", "json"]).to_string() };
        loop {
            let d = if i == 0 { *r.pick(&["", "", "sub", "o"]) } else { *r.pick(&places) };
            let p = under(d, &format!("{}{}.{ext}", r.pick(&stems), if r.chance(40) { i.to_string() } else { String::new() }));
            if !t.nodes.contains_key(&p) && !t.dirs.contains(&p) {
                t.add(&p, Node::File(i));
                w.files[i].path = p;
                break;
            }
        }
    }
    for d in ["zz", "sub/zz", "imp", "imp2"] {
        t.dirs.insert(d.into());
    }
    let mut idirs: Vec<String> = ["imp", "imp2", "o", "", "sub"].iter().filter(|_| r.chance(40)).map(|s| s.to_string()).collect();
    r.shuffle(&mut idirs);
    idirs.iter().filter(|d| !d.is_empty()).for_each(|d| {
        t.dirs.insert(d.clone());
    });
    // links: to a directory, and to files from their own directory
    if r.chance(40) {
        t.add("ln", Node::Link(r.pick(&["sub", "imp", "zz"]).to_string()));
        for d in ["sub", "imp", "zz"] {
            t.dirs.insert(d.into());
        }
    }
    for i in 1..w.files.len() {
        if r.chance(25) {
            let p = w.files[i].path.clone();
            let l = under(parent(&p), &format!("link{i}.avdl"));
            t.add(&l, Node::Link(p));
        }
    }
    // how each import is spelled
    let mut uses: Vec<(String, String, usize)> = vec![];
    for i in 0..w.files.len() {
        let here = parent(&w.files[i].path).to_string();
        let targets: Vec<(usize, usize)> = match &w.files[i].body {
            FileBody::Idl(f) => f.items.iter().enumerate().filter_map(|(k, x)| if let Item::Import { target, .. } = x { Some((k, *target)) } else { None }).collect(),
            _ => continue,
        };
        for (k, target) in targets {
            let to = w.files[target].path.clone();
            let plain = rel(&w.files[i].path, &to);
            let mut how = "plain";
            let mut p = plain.clone();
            match r.below(9) {
                0 | 1 => {
                    how = "respelled";
                    p = respell(&plain, &here, &t, &mut r);
                    if r.chance(40) {
                        p = respell(&p, &here, &t, &mut r);
                    }
                }
                2 => {
                    how = "absolute";
                    p = format!("{root}{to}");
                    if r.chance(30) {
                        p = format!("{root}zz/../{to}");
                    }
                }
                3..=5 if !idirs.is_empty() => {
                    how = "through an import directory";
                    let d = r.pick(&idirs).clone();
                    p = rel(&under(&d, "x"), &to);
                    if r.chance(30) {
                        p = respell(&p, &d, &t, &mut r);
                    }
                }
                6 => {
                    let ls: Vec<String> = t.nodes.iter().filter(|(_, n)| **n == Node::Link(to.clone())).map(|x| x.0.clone()).collect();
                    if !ls.is_empty() {
                        how = "through a link to the file";
                        p = rel(&w.files[i].path, r.pick(&ls));
                    }
                }
                7 => {
                    if let Some(Node::Link(d)) = t.nodes.get("ln") {
                        if let Some(rest) = to.strip_prefix(&format!("{d}/")) {
                            how = "through a link to the directory";
                            p = rel(&w.files[i].path, &format!("ln/{rest}"));
                        }
                    }
                }
                _ => {}
            }
            if t.find(&p, &here, &idirs, &root).as_deref() != Some(to.as_str()) {
                how = "plain";
                p = plain;
            }
            ctx.count(&format!("imports: {how}"), 1);
            uses.push((p.clone(), here.clone(), target));
            if let FileBody::Idl(f) = &mut w.files[i].body {
                f.items[k] = Item::Import { target, path: Some(p) };
            }
        }
    }
    // files that the lookup must pass over
    let all_right = |t: &Tree| uses.iter().all(|(p, d, k)| t.find(p, d, &idirs, &root).as_deref() == Some(w.files[*k].path.as_str()));
    debug_assert!(all_right(&t));
    for _ in 0..r.below(6) {
        let (p, d, _) = r.pick(&uses).clone();
        let bases: Vec<String> = std::iter::once(d.clone()).chain(idirs.iter().cloned()).chain([String::new()]).collect();
        let at = under(r.pick(&bases), &p);
        if at.split('/').any(|c| c.is_empty() || c == "." || c == "..") || t.nodes.contains_key(&at) || t.dirs.contains(&at) {
            continue;
        }
        if parent(&at).split('/').scan(String::new(), |a, c| {
            *a = under(a, c);
            Some(a.clone())
        }).any(|a| t.nodes.contains_key(&a)) {
            continue;
        }
        let dirs = t.dirs.clone();
        t.add(&at, Node::Decoy);
        if all_right(&t) {
            ctx.count("files to be passed over", 1);
        } else {
            t.nodes.remove(&at);
            t.dirs = dirs;
        }
    }
    let mut b = {
        let mut q = ctx.rng.fork();
        spell(&w, &dir, &mut q, &mut style_of)
    };
    for d in &t.dirs {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    write_files(&b);
    for (p, n) in &t.nodes {
        match n {
            Node::Decoy => std::fs::write(dir.join(p), *r.pick(&["record Decoy { int decoy; }", "this is not IDL", "{\"type\":\"fixed\",\"name\":\"Decoy\",\"size\":1}", "protocol Decoy { void decoy(); enum E { A } }"])).unwrap(),
            Node::Link(to) => {
                let up = if r.chance(50) { dir.join(to).display().to_string() } else { rel(p, to) };
                std::os::unix::fs::symlink(up, dir.join(p)).unwrap();
            }
            _ => {}
        }
    }
    b.dirs = idirs.iter().map(|d| if d.is_empty() && r.chance(50) { dir.clone() } else { dir.join(d) }).collect();
    // the program named relative to the working directory, in some cases
    let main = w.files[0].path.clone();
    let old = std::env::current_dir().unwrap();
    if r.chance(40) {
        let cwd = r.pick(&["", "zz", "sub"]).to_string();
        let cwd = if t.dirs.contains(&cwd) || cwd.is_empty() { cwd } else { "zz".into() };
        std::env::set_current_dir(dir.join(&cwd)).unwrap();
        b.main = rel(&under(&cwd, "x"), &main).into();
        if r.chance(30) {
            b.main = Path::new(".").join(&b.main);
        }
        b.dirs = idirs.iter().map(|d| if r.chance(50) { dir.join(d) } else { let x = rel(&under(&cwd, "x"), &under(d, "x")); if parent(&x).is_empty() { ".".into() } else { parent(&x).into() } }).collect();
        ctx.count("programs named by a relative path", 1);
    }
    let m = model(&w, &b.nls);
    note(ctx, &w, &m, &b);
    let f = facets("C07");
    judge(ctx, &w, &m, &b, true, ctx.case % 8 < 3, f);
    // without one of its files, or with a spoilt one, the program cannot be compiled
    let reached: Vec<usize> = m.reached.iter().copied().filter(|i| *i > 0).collect();
    if !reached.is_empty() && r.chance(60) {
        let i = *r.pick(&reached);
        let p = w.files[i].path.clone();
        let how = r.below(3);
        match how {
            0 => {
                t.nodes.remove(&p);
                let _ = std::fs::remove_file(dir.join(&p));
            }
            1 => std::fs::write(dir.join(&p), r.pick(&["{", "record R { int", "[1]", "protocol { }"])).unwrap(),
            _ => std::fs::write(dir.join(&p), b"\xff\xfe{}").unwrap(),
        }
        // what is passed over otherwise may now be found instead
        let found = uses.iter().any(|(q, d, k)| *k == i && t.find(q, d, &idirs, &root).is_some());
        if how > 0 || !found {
            ctx.count("programs with a missing or spoilt file", 1);
            let what = ["is missing", "is malformed", "is not text"][how];
            for ext in [false, true] {
                let o = if ext { obs::extract_path(&b.main, &b.dirs) } else { obs::convert_path(&b.main, &b.dirs) };
                ctx.eval();
                if o.ok() {
                    ctx.fail("broken-import-accepted", format!("{} although the imported file {p} {what}", o.describe()), &b.files);
                } else if let Out::Panic(p) = o {
                    ctx.fail("panic", p, &b.files);
                }
            }
        }
    }
    let _ = std::env::set_current_dir(old);
}

// -------------------------------------------------------------- C16 directories
/// Extracting a directory against extracting its files.
pub fn dirs(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let dir = ctx.fresh();
    let root = dir.join("tree");
    std::fs::create_dir_all(&root).unwrap();
    let names = ["a.avdl", "b.avdl", "B.avdl", "a-b.avdl", "a.b.avdl", "é.avdl", "10.avdl", "9.avdl", "z z.avdl", "_.avdl"];
    let folders = ["", "a", "a/c", "b.avdl.d", "a.avdl.d", "Z", "é", "a.b", "x/y/z", "d.avdl"];
    let others = ["notes.txt", "a.avdlx", "b.avsc", "c.avpr", "avdl", "a.avdl.bak", "README", "d.idl"];
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    let n = r.range(0, 6);
    for _ in 0..n {
        let p = under(*r.pick(&folders), r.pick(&names));
        if files.contains_key(&p) || files.keys().any(|f| f.starts_with(&format!("{p}/")) || p.starts_with(&format!("{f}/"))) {
            continue;
        }
        let cfg = Cfg { types: (0, 4), fields: (0, 3), p_doc: 10, mode: (40, 25, 35), ..Cfg::small() };
        let w = gen_::world(&cfg, &mut r);
        let mut q = ctx.rng.fork();
        let mut t = spell(&w, &dir, &mut q, &mut style_of).files.remove(0).1;
        match r.below(20) {
            0..=5 => t = format!("/** stray */ /** first */ {t}"),
            6 if r.chance(40) => {
                t.push_str(" record {");
            }
            // one that fails later than its parsing: its warnings stay
            7..=9 if !matches!(w.main().kind, Kind::Proto { .. }) => {
                t.push_str(" /** stray */ /** kept */ record Zz_bad { Nowhere_to_be_found x; }");
                ctx.count("files with an unresolved name", 1);
            }
            _ => {}
        }
        files.insert(p, t);
    }
    // imports among the files of the tree
    let own: Vec<String> = files.keys().cloned().collect();
    for k in 0..r.below(3) {
        let p = under(*r.pick(&folders), &format!("imp{k}.avdl"));
        if own.is_empty() || files.contains_key(parent(&p)) {
            continue;
        }
        let to = r.pick(&own).clone();
        files.insert(p.clone(), format!("import idl \"{}\"; record Own{k} {{ int a; }}", rel(&p, &to)));
        ctx.count("files importing another of the directory", 1);
    }
    let mut all: Vec<(String, String)> = files.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    for o in others {
        if r.chance(25) {
            let p = under(*r.pick(&folders), o);
            if !files.contains_key(parent(&p)) {
                all.push((p, r.pick(&["record Other { int a; }", "not IDL {", ""]).to_string()));
            }
        }
    }
    for (p, t) in &all {
        let p = root.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    if r.chance(30) {
        let _ = std::fs::create_dir_all(root.join("empty.avdl"));
    }
    // sorted, directory by directory
    let mut order: Vec<&String> = files.keys().collect();
    order.sort_by(|a, b| a.split('/').collect::<Vec<_>>().cmp(&b.split('/').collect::<Vec<_>>()));
    let mut schemas = vec![];
    let mut warns = vec![];
    let mut failed = None;
    for f in &order {
        match obs::extract_path(&root.join(f), &[]) {
            Out::Schemata { schemas: s, warns: w } => {
                schemas.extend(s);
                warns.extend(w);
            }
            Out::Err { err, warns: w } => {
                warns.extend(w);
                failed = Some(err);
                break;
            }
            o => return ctx.fail("panic", o.describe(), &all),
        }
    }
    let mut reused = avdl::Idl2Schemata::new();
    for again in 0..2 {
        let o = obs::run_ext(&mut reused, &obs::In::Path(&root));
        ctx.eval();
        let what = if again == 1 { "a second extraction of the directory" } else { "extracting the directory" };
        match (&failed, &o) {
            (None, Out::Schemata { schemas: s, warns: w }) => {
                if *s != schemas {
                    let n = |v: &[(String, Value)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
                    ctx.fail("directory", format!("{what} gives {:?}, its files {order:?} give {:?}{}", n(s), n(&schemas), if n(s) == n(&schemas) { " (contents differ)" } else { "" }), &all);
                } else if *w != warns {
                    ctx.fail("directory-warnings", format!("{what} warns {:?}, its files warn {:?}", w.iter().map(|d| d.text()).collect::<Vec<_>>(), warns.iter().map(|d| d.text()).collect::<Vec<_>>()), &all);
                }
                ctx.count("directories compared", 1);
                ctx.count("files of directories", order.len() as u64);
                ctx.count("extracted schemas compared", s.len() as u64);
            }
            (Some(e), Out::Err { err, warns: w }) => {
                if err.text() != e.text() {
                    ctx.count("errors of directories worded differently", 1);
                }
                if *w != warns {
                    ctx.fail("directory-warnings", format!("{what} fails with warnings {:?}, its files warn {:?}", w.iter().map(|d| d.text()).collect::<Vec<_>>(), warns.iter().map(|d| d.text()).collect::<Vec<_>>()), &all);
                }
                ctx.count("failing directories compared", 1);
                ctx.count("warnings of failing directories", w.len() as u64);
            }
            (Some(e), o) => ctx.fail("directory-accepted", format!("{what} was {}, but one of its files fails: {}", o.describe(), e.text()), &all),
            (None, o) => ctx.fail("directory-rejected", format!("{what} was {}, but each of its files can be extracted", o.describe()), &all),
        }
    }
    ctx.shape(&format!("{order:?} {:?}", schemas.iter().map(|s| &s.0).collect::<Vec<_>>()));
    if r.chance(2) {
        ctx.sample(|| json!(order));
    }
}

// ---------------------------------------------------------------- C08 own output
/// What the compiler wrote, imported again.
pub fn fixpoint(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let cfg = Cfg { idl_imports: (0, r.below(2)), json_imports: (0, r.below(3)), types: (1, 8), p_doc: 30, p_prop: 30, p_alias: 25, null_ns: 20, p_default: 40, mode: (60, 25, 15), ..Cfg::small() };
    let w = gen_::world(&cfg, &mut r);
    let b = build(ctx, &w, &mut style_of);
    let mut outs: Vec<(bool, Value)> = vec![];
    if let Out::Ok { json, .. } = obs::convert_path(&b.main, &b.dirs) {
        outs.push((matches!(w.main().kind, Kind::Proto { .. }), json));
    }
    if outs.is_empty() || r.chance(30) {
        if let Out::Schemata { schemas, .. } = obs::extract_path(&b.main, &b.dirs) {
            if !schemas.is_empty() {
                outs.push((false, r.pick(&schemas).1.clone()));
            }
        }
    }
    for (proto, json) in outs {
        let (want, d) = if proto { Reader::read_protocol(&json) } else { Reader::read_schema(&json) };
        if !d.is_empty() {
            ctx.count("outputs already wrong", 1);
            continue;
        }
        if want.fell_back > 0 {
            // known finding, see the directed case
            ctx.count("outputs with a bare name of a type without namespace", 1);
            continue;
        }
        let text = if r.chance(50) { json.to_string() } else { serde_json::to_string_pretty(&json).unwrap() };
        let (kw, name) = if proto { ("protocol", "out.avpr") } else { ("schema", "out.avsc") };
        std::fs::write(b.dir.join(name), &text).unwrap();
        // another file with the same definitions adds nothing
        let twice = r.chance(30);
        let mut imports = format!("import {kw} \"{name}\";");
        if twice {
            std::fs::write(b.dir.join(format!("copy{name}")), &text).unwrap();
            imports.push_str(&format!(" import {kw} \"copy{name}\";"));
        }
        let mut ns = *r.pick(&["", "", "again", "a.b"]);
        // Avro has no notation there for a type without namespace whose name is taken
        if want.defs.keys().any(|n| !n.contains('.') && want.defs.contains_key(&join(ns, n))) {
            ns = "";
        }
        let nsd = if ns.is_empty() { String::new() } else { format!("@namespace(\"{ns}\") ") };
        let prog = format!("{nsd}protocol Again {{ {imports} }}");
        let p = b.dir.join("again.avdl");
        std::fs::write(&p, &prog).unwrap();
        let files = vec![("again.avdl".to_string(), prog), (name.to_string(), text)];
        ctx.eval();
        let first = obs::convert_path(&p, &[]);
        let Out::Ok { json: again, warns } = &first else {
            ctx.fail("output-rejected", format!("the compiler's own output was {}", first.describe()), &files);
            continue;
        };
        if !warns.is_empty() {
            ctx.fail("output-warned", format!("the compiler's own output is warned about: {}", warns[0].text()), &files);
        }
        let (got, mut d) = Reader::read_protocol(again);
        cmp_defs(&mut d, &want, &got);
        cmp_msgs(&mut d, &want, &got);
        for x in d {
            ctx.fail(&format!("output-{}", x.facet), format!("importing the compiler's own output: {}", x.msg), &files);
        }
        ctx.count("outputs imported again", 1);
        ctx.count("definitions imported again", want.defs.len() as u64);
        // the extraction of what was imported
        if r.chance(30) {
            let m: String = format!("{imports}\n");
            let q = b.dir.join("ext.avdl");
            std::fs::write(&q, &m).unwrap();
            ctx.eval();
            match obs::extract_path(&q, &[]) {
                Out::Schemata { schemas, .. } => {
                    let mut seen = BTreeSet::new();
                    for (_, s) in &schemas {
                        let (got, d) = Reader::read_schema(s);
                        if let Some(CTy::Named(n)) = &got.root {
                            seen.insert(n.clone());
                        }
                        let mut d = d;
                        for (n, g) in &got.defs {
                            match want.defs.get(n) {
                                Some(x) => cmp_def(&mut d, x, g),
                                None => d.push(diff("missing", format!("{n} was not defined"))),
                            }
                        }
                        for x in d {
                            ctx.fail(&format!("output-{}", x.facet), format!("extracting from the compiler's own output: {}", x.msg), &files);
                        }
                    }
                    let all: BTreeSet<String> = want.defs.keys().cloned().collect();
                    if seen != all {
                        ctx.fail("output-list", format!("extracting from the compiler's own output gives {seen:?}, defined were {all:?}"), &files);
                    }
                }
                o => ctx.fail("output-rejected", format!("extraction from the compiler's own output was {}", o.describe()), &files),
            }
        }
        ctx.shape(&json.to_string());
    }
}
/// Findings on record, tried again.
pub fn known_c08(ctx: &mut Ctx) {
    let dir = ctx.fresh();
    let put = |n: &str, t: &str| std::fs::write(dir.join(n), t).unwrap();
    // 1. a type without namespace, named in a namespace of the output
    let s = r#"{"type":"record","name":"R","namespace":"n","fields":[{"name":"a","type":{"type":"fixed","name":"F","namespace":"","size":1}},{"name":"b","type":".F"}]}"#;
    put("s.avsc", s);
    put("a.avdl", "@namespace(\"n\") protocol P { import schema \"s.avsc\"; }");
    put("b.avdl", "@namespace(\"n\") protocol P { import protocol \"out.avpr\"; }");
    ctx.eval();
    if let Out::Ok { json, .. } = obs::convert_path(&dir.join("a.avdl"), &[]) {
        put("out.avpr", &json.to_string());
        let o = obs::convert_path(&dir.join("b.avdl"), &[]);
        if !o.ok() {
            ctx.fail("bare-name-of-a-type-without-namespace", format!("the compiler's own output for s.avsc was {}", o.describe()), &[("s.avsc".into(), s.into()), ("out.avpr".into(), json.to_string())]);
        }
    }
    // 2. numbers of imported JSON
    for x in ["1.6401855824258783e+78", "904464.6884765625"] {
        let s = format!("{{\"type\":\"record\",\"name\":\"R\",\"fields\":[{{\"name\":\"a\",\"type\":\"double\",\"default\":{x}}}]}}");
        put("s.avsc", &s);
        put("a.avdl", "protocol P { import schema \"s.avsc\"; }");
        ctx.eval();
        if let Out::Ok { json, .. } = obs::convert_path(&dir.join("a.avdl"), &[]) {
            let got = json["types"][0]["fields"][0]["default"].to_string();
            if got.parse::<f64>() != x.parse::<f64>() {
                ctx.fail("imported-double-one-unit-off", format!("the default {x} of an imported schema became {got}"), &[("s.avsc".into(), s)]);
            }
        }
    }
}
pub fn case_c07(ctx: &mut Ctx) {
    if ctx.case % 3 == 2 { paths(ctx) } else { case(ctx) }
}
pub fn case_c08(ctx: &mut Ctx) {
    if ctx.case % 4 == 3 { fixpoint(ctx) } else { case(ctx) }
}
pub fn case_c16(ctx: &mut Ctx) {
    if ctx.case % 4 == 3 { dirs(ctx) } else { case(ctx) }
}
