//! C11: whatever the input, a compilation ends with a result or an error whose
//! diagnostics are sound. Runs also with the address sanitizer watching.
use crate::m_det::{self, Job};
use crate::obs::{self, Diag, In, Out};
use crate::rng::Rng;
use crate::run::*;
use crate::work::{self, Prog};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn judge(ctx: &mut Ctx, how: &str, o: &Out, files: &[(String, String)]) {
    ctx.eval();
    ctx.count(
        match o {
            Out::Panic(_) => "outcomes: panicked",
            Out::Err { .. } => "outcomes: rejected",
            _ => "outcomes: accepted",
        },
        1,
    );
    if std::env::var_os("MON_ASAN").is_some() {
        ctx.count("compilations under the address sanitizer", 1);
    }
    if let Out::Panic(p) = o {
        ctx.fail("panic", format!("{how} panicked: {p}"), files);
    }
    let mut ds: Vec<(&str, &Diag)> = o.warns().iter().map(|w| ("warning", w)).collect();
    if let Out::Err { err, .. } = o {
        ds.push(("error", err));
        if err.text().trim().is_empty() {
            ctx.fail("empty-error", format!("{how}: an error without any text"), files);
        }
    }
    for (what, d) in ds {
        ctx.count("diagnostics judged", 1);
        ctx.count("labels judged", d.all().iter().map(|d| d.labels.len() as u64).sum());
        if let Some(m) = obs::malformed(d) {
            ctx.fail(&format!("malformed-{what}"), format!("{how}: {what} `{}` {m}", d.text().chars().take(300).collect::<String>()), files);
        }
    }
    match o {
        Out::Ok { json, .. } => {
            let _ = serde_json::to_string_pretty(json).unwrap();
        }
        Out::Schemata { schemas, .. } => {
            for (_, s) in schemas {
                let _ = serde_json::to_string_pretty(s).unwrap();
            }
        }
        _ => {}
    }
}
fn random_text(r: &mut Rng) -> Vec<u8> {
    let n = r.below(200);
    match r.below(4) {
        0 => (0..n).map(|_| r.below(256) as u8).collect(),
        1 => (0..n).map(|_| char::from_u32(r.below(128) as u32).unwrap()).collect::<String>().into_bytes(),
        2 => (0..n).filter_map(|_| char::from_u32(r.below(0x11_0000) as u32)).collect::<String>().into_bytes(),
        _ => (0..n).filter_map(|_| char::from_u32(r.below(0x3000) as u32)).collect::<String>().into_bytes(),
    }
}
fn jsons(dir: &Path, r: &mut Rng) -> Prog {
    let n = r.range(1, 4);
    let mut main = String::from("protocol P { ");
    let mut files = vec![];
    for k in 0..n {
        let pr = r.chance(50);
        let f = format!("j{k}.{}", if pr { "avpr" } else { "avsc" });
        main.push_str(&format!("import {} \"{f}\"; ", if pr { "protocol" } else { "schema" }));
        let d = r.range(1, 7);
        let mut v = work::any_json(r, d);
        if pr && r.chance(80) {
            v = json!({"protocol": r.pick(&["P", "a.P", "", "9", "x-y"]), "types": [work::any_json(r, 4), work::any_json(r, 4)], "messages": {"m": work::any_json(r, 3), "n": {"request": [{"name": "a", "type": work::any_json(r, 3)}], "response": work::any_json(r, 2), "errors": work::any_json(r, 2)}}});
        }
        let mut t = v.to_string().into_bytes();
        if r.chance(10) {
            t = work::mutate(&String::from_utf8_lossy(&t), "{}", r);
        }
        files.push((f, t));
    }
    main.push_str(r.pick(&["R f(E e) throws a.R; }", "record Q { R r; a.R q = {}; E e = \"A\"; F f = \"x\"; }}", "}", "record R { int a; }}"]));
    files.insert(0, ("main.avdl".into(), main.into_bytes()));
    Prog { dir: dir.into(), main: dir.join("main.avdl"), dirs: vec![], files, kind: "arbitrary JSON" }
}
fn prog(dir: &Path, r: &mut Rng) -> Prog {
    let alone = |t: Vec<u8>, kind| Prog { dir: dir.into(), main: dir.join("main.avdl"), dirs: vec![], files: vec![("main.avdl".into(), t)], kind };
    match r.below(20) {
        0 => alone(random_text(r), "random text"),
        1 | 2 => alone(work::soup(r).into_bytes(), "token soup"),
        3 | 4 => jsons(dir, r),
        5 => {
            // descriptions of everything
            let d: Vec<String> = (0..9).map(|_| work::odd_doc(r)).collect();
            let t = format!("{}protocol P {{ {}record R {{ {}int {} a, {} b; }} {}enum E {{ A }} {}fixed F(1); {}void m({}int x); }}", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]);
            alone(t.into_bytes(), "odd doc comments")
        }
        6 | 7 => work::any(dir, r),
        _ => work::mutated(dir, r),
    }
}
pub fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let dir = ctx.fresh();
    let p = prog(&dir, &mut r);
    p.write();
    let files = p.texts();
    ctx.keep(&files);
    ctx.count(&format!("programs: {}", p.kind), 1);
    ctx.shape(&format!("{:?}", p.files));
    let t = Instant::now();
    let single = p.files.len() == 1;
    if !single || r.chance(50) {
        judge(ctx, "compiling", &obs::convert_path(&p.main, &p.dirs), &files);
        judge(ctx, "extracting", &obs::extract_path(&p.main, &p.dirs), &files);
    }
    if let Some(t) = p.main_text() {
        if single || r.chance(10) {
            judge(ctx, "compiling the text", &obs::convert_str(t), &files);
            judge(ctx, "extracting from the text", &obs::extract_str(t), &files);
        }
    }
    if r.chance(10) {
        judge(ctx, "extracting the directory", &obs::extract_path(&p.dir, &p.dirs), &files);
    }
    if r.chance(10) {
        // whatever file, taken for IDL
        let f = p.dir.join(&r.pick(&p.files).0);
        judge(ctx, "compiling a file of another kind", &obs::convert_path(&f, &p.dirs), &files);
    }
    let slow = t.elapsed();
    if slow > Duration::from_secs(20) {
        ctx.fail("slow", format!("compiling {} bytes took {slow:?}", p.files.iter().map(|f| f.1.len()).sum::<usize>()), &files);
    }
    if p.files.iter().map(|f| f.1.len()).sum::<usize>() < 400 {
        ctx.sample(|| json!({"kind": p.kind, "files": files}));
    }
}
/// Deep nesting and long chains, each in a process of its own.
pub fn directed(ctx: &mut Ctx) {
    let dir = ctx.fresh();
    let exe = std::env::current_exe().unwrap();
    let mut k = 0;
    let mut go = |ctx: &mut Ctx, name: &str, files: Vec<(String, String)>, sig: &str| {
        k += 1;
        let d = dir.join(format!("d{k}"));
        std::fs::create_dir_all(&d).unwrap();
        for (f, t) in &files {
            std::fs::write(d.join(f), t).unwrap();
        }
        let job = |ext, text| Job { main: d.join("main.avdl"), dirs: vec![], ext, text };
        ctx.eval();
        ctx.count("nested constructs tried", 1);
        let short: Vec<(String, String)> = files.iter().take(3).map(|(f, t)| (f.clone(), t.chars().take(3000).collect())).collect();
        let t0 = Instant::now();
        let res = m_det::elsewhere(&exe, &d, &[job(false, false), job(true, false), job(false, true)], 1, 0, 100);
        if std::env::var_os("MON_TRACE").is_some() {
            eprintln!("{:?} {name}", t0.elapsed());
        }
        match res {
            Ok(v) => {
                if v[0].iter().any(|s| s.starts_with("Panic")) {
                    ctx.fail(&format!("panic-{sig}"), format!("{name}: {:?}", v[0]), &short);
                }
            }
            Err(e) => ctx.fail(sig, format!("{name}: {}", e.chars().take(500).collect::<String>()), &short),
        }
        let _ = std::fs::remove_dir_all(&d);
    };
    let one = |t: String| vec![("main.avdl".to_string(), t)];
    let sizes: &[usize] = if std::env::var_os("MON_ASAN").is_some() { &[60, 64, 65, 3000] } else { &[40, 60, 64, 65, 100, 2000, 60_000] };
    for &n in sizes {
        let rep = |a: &str| a.repeat(n);
        // families that give one diagnostic per construct
        let few = |a: &str| a.repeat(n.min(1000));
        let cases: Vec<(&str, String)> = vec![
            ("arrays", format!("protocol P {{ record R {{ {}int{} f; }} }}", rep("array<"), rep(">"))),
            ("maps", format!("schema {}int{};", rep("map<"), rep(">"))),
            ("unions", format!("schema {}int{};", rep("union{array<"), rep(">}"))),
            ("open arrays", format!("schema {}", rep("array<"))),
            ("array default", format!("record R {{ int a = {}1{}; }}", rep("["), rep("]"))),
            ("object default", format!("record R {{ int a = {}1{}; }}", rep("{\"k\":"), rep("}"))),
            ("mixed default", format!("record R {{ int a = {}1{}; }}", rep("[{\"k\":"), rep("}]"))),
            ("annotation", format!("@a({}1{}) record R {{ int a; }}", rep("["), rep("]"))),
            ("annotation on types", format!("record R {{ {}int{} a; }}", rep("@b(1) array<"), rep(">"))),
            ("braces", format!("protocol P {}", rep("{"))),
            ("closing", format!("protocol P {{ {} }}", rep("}"))),
            ("parentheses", format!("protocol P {{ void f{} }}", rep("("))),
            ("annotations", format!("{} record R {{ int a; }}", rep("@a(1)\n"))),
            ("docs", format!("{} record R {{ int a; }}", few("/** d */\n"))),
            ("semicolons", format!("protocol P {{ {} }}", rep(";"))),
            ("records", format!("protocol P {{ {} }}", few("record R { int a; }\n"))),
            ("dots", format!("record R {{ {}b a; }}", rep("a."))),
            ("question marks", format!("record R {{ int{} a; }}", rep("?"))),
            ("digits", format!("record R {{ long a = {}; }}", rep("1"))),
            ("fraction", format!("record R {{ double a = 0.{}; }}", rep("1"))),
            ("hexadecimal", format!("record R {{ double a = 0x{}p1; }}", rep("f"))),
            ("exponent", format!("record R {{ double a = 1e{}; }}", rep("9"))),
            ("string", format!("record R {{ string a = \"{}\"; }}", rep("\\u0041"))),
            ("comment", format!("/*{}*/ schema int;", few("*/\n/*"))),
            ("stray characters", format!("schema int; {}", few("#\n"))),
            ("name", format!("record {} {{ int a; }}", rep("a"))),
            ("backticks", format!("record R {{ {} a; }}", few("`\n"))),
            ("namespace", format!("namespace {}a; schema int;", rep("a."))),
            ("errors", format!("protocol P {{ record R {{ {} }} }}", (0..n.min(1000)).map(|i| format!("U{i} f{i};\n")).collect::<String>())),
        ];
        for (c, t) in cases {
            go(ctx, &format!("{n} nested or repeated {c}"), one(t), "nesting");
        }
        let j = |t: String| vec![("main.avdl".to_string(), "protocol P { import schema \"j.avsc\"; }".to_string()), ("j.avsc".to_string(), t)];
        go(ctx, &format!("{n} nested JSON arrays"), j(format!("{}{}", rep("{\"type\":\"array\",\"items\":"), rep("}"))), "nesting");
        go(ctx, &format!("{n} nested JSON unions"), j(format!("{}\"int\"{}", rep("["), rep("]"))), "nesting");
        go(ctx, &format!("{n} nested JSON types"), j(format!("{}\"int\"{}", rep("{\"type\":"), rep("}"))), "nesting");
        let mut s = String::from("\"int\"");
        for i in 0..n.min(3000) {
            s = format!("{{\"type\":\"record\",\"name\":\"R{i}\",\"fields\":[{{\"name\":\"f\",\"type\":{s}}}]}}");
        }
        go(ctx, &format!("{n} nested JSON records"), j(s), "nesting");
    }
    // chains whose result nests as deeply as they are long
    let chain = |n: usize| format!("protocol P {{ {} record R{n} {{ int a; }} }}", (0..n).map(|i| format!("record R{i} {{ R{} a; }}\n", i + 1)).collect::<String>());
    go(ctx, "a chain of 300 records", one(chain(300)), "chain-300");
    go(ctx, "a chain of 20000 records, each using the next", one(chain(20_000)), "overflow-chain");
    let back = |n: usize| format!("protocol P {{ record R0 {{ int a; }} {} }}", (1..n).map(|i| format!("record R{i} {{ R{} a; }}\n", i - 1)).collect::<String>());
    go(ctx, "a chain of 300 records, each using the one before", one(back(300)), "back-chain");
    let imports = |n: usize| -> Vec<(String, String)> {
        let mut v = vec![("main.avdl".to_string(), "import idl \"f1.avdl\"; schema int;".to_string())];
        v.extend((1..n).map(|i| (format!("f{i}.avdl"), if i + 1 < n { format!("import idl \"f{}.avdl\"; record R{i} {{ int a; }}", i + 1) } else { format!("record R{i} {{ int a; }}") })));
        v
    };
    go(ctx, "a chain of 300 imports", imports(300), "imports-300");
    // odd inputs of other kinds
    let odd: Vec<PathBuf> = vec![dir.join("missing.avdl"), dir.clone(), PathBuf::from(""), PathBuf::from("a\0b")];
    for p in odd {
        for o in [obs::convert_path(&p, &[dir.join("nowhere")]), obs::extract_path(&p, &[PathBuf::from("")])] {
            judge(ctx, &format!("input path {p:?}"), &o, &[]);
        }
    }
    let d = ctx.fresh();
    std::fs::create_dir_all(d.join("sub")).unwrap();
    for imp in ["sub", "", ".", "/", "a\\u0000b", "main.avdl/x", "..", "\\uD800", &"x".repeat(5000)] {
        for kind in ["idl", "protocol", "schema"] {
            let t = format!("import {kind} \"{imp}\"; schema int;");
            std::fs::write(d.join("main.avdl"), &t).unwrap();
            let files = [("main.avdl".to_string(), t)];
            judge(ctx, "an odd import", &obs::convert_path(&d.join("main.avdl"), &[]), &files);
            judge(ctx, "an odd import", &obs::run_idl(&mut avdl::Idl::new(), &In::Str(obs::leak(&files[0].1), "x")), &files);
        }
    }
}
