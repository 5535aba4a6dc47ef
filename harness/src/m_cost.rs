//! C20: what a compilation allocates, and how long it runs, as the program grows.
//! The allocator counts; families of programs are compiled at doubling sizes.
use crate::obs::{self, Out};
use crate::rng::Rng;
use crate::run::*;
use serde_json::json;
use std::path::Path;

type Files = Vec<(String, String)>;
struct Cost {
    bytes: u64,
    secs: f64,
    ok: bool,
}
fn one(t: String) -> Files {
    vec![("main.avdl".into(), t)]
}
fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}
fn proto(s: String) -> Files {
    one(format!("protocol P {{\n{s}}}\n"))
}
/// name, smallest size, program of a size
fn families() -> Vec<(&'static str, usize, fn(usize) -> Files)> {
    vec![
        ("types", 100, |n| proto(rep(n, |i| format!("record R{i} {{ int a; }}\n")))),
        ("types used by the next", 60, |n| proto(rep(n, |i| if i == 0 { "record R0 { int a; }\n".into() } else { format!("record R{i} {{ R{} a; }}\n", i - 1) }))),
        ("types used twice by the next", 60, |n| proto(rep(n, |i| if i == 0 { "record R0 { int a; }\n".into() } else { format!("record R{i} {{ R{p} a; array<R{p}> b; }}\n", p = i - 1) }))),
        ("forward references", 60, |n| proto(rep(n, |i| format!("record R{i} {{ R{x} a; map<R{x}> b; }}\n", x = i + 1)) + &format!("record R{n} {{ int a; }}\n"))),
        ("recursive types", 60, |n| proto(rep(n, |i| format!("record R{i} {{ union {{null, R{i}, R{j}}} a; R{j}? b; }}\n", j = (i + 1) % n)))),
        ("fields", 200, |n| proto(format!("record R {{\n{}}}\n", rep(n, |i| format!("int a{i};\n"))))),
        ("variables", 200, |n| proto(format!("record R {{ int {}; }}\n", rep(n, |i| format!("{}a{i}", if i > 0 { ", " } else { "" }))))),
        ("annotated variables", 100, |n| proto(format!("record R {{ array<@a(1) string> {}; }}\n", rep(n, |i| format!("{}@b({i}) a{i}", if i > 0 { ", " } else { "" }))))),
        ("symbols", 300, |n| proto(format!("enum E {{ {} }}\n", rep(n, |i| format!("{}S{i}", if i > 0 { ",\n" } else { "" }))))),
        ("messages", 100, |n| proto(rep(n, |i| format!("int m{i}(string s, E e);\n")) + "enum E { A }")),
        ("parameters", 200, |n| proto(format!("void f({});\n", rep(n, |i| format!("{}int a{i}", if i > 0 { ", " } else { "" }))))),
        ("throws", 60, |n| proto(rep(n, |i| format!("error E{i} {{ int a; }}\n")) + &format!("void f() throws {};", rep(n, |i| format!("{}E{i}", if i > 0 { ", " } else { "" }))))),
        ("throwing messages", 60, |n| proto("error E { int a; }\n".to_string() + &rep(n, |i| format!("void f{i}() throws E;\n")))),
        ("branches", 60, |n| proto(rep(n, |i| format!("record R{i} {{ int a; }}\n")) + &format!("record U {{ union {{ {} }} u; }}", rep(n, |i| format!("{}R{i}", if i > 0 { ", " } else { "" }))))),
        ("unions", 100, |n| proto(format!("record R {{\n{}}}\n", rep(n, |i| format!("union {{ null, int, string, array<union {{ null, long }}> }} a{i};\n"))))),
        ("nested arrays", 12, |n| proto(format!("record R {{ {}int{} a; }}", "array<".repeat(n), ">".repeat(n)))),
        ("nested unions in maps", 6, |n| proto(format!("record R {{ {}int{} a; }}", "union{null,map<".repeat(n), ">}".repeat(n)))),
        ("nested optional arrays", 12, |n| proto(format!("record R {{ {}int{} a; }}", "array<".repeat(n), ">?".repeat(n)))),
        ("nested annotation", 12, |n| proto(format!("@a({}1{}) record R {{ int a; }}", "[".repeat(n), "]".repeat(n)))),
        ("nested annotation objects", 12, |n| proto(format!("@a({}1{}) record R {{ int a; }}", "{\"k\":".repeat(n), "}".repeat(n)))),
        ("nested default", 12, |n| proto(format!("record A {{ union {{ int, A, map<A> }} f; }} record R {{ A a = {}1{}; }}", "{\"f\":".repeat(n), "}".repeat(n)))),
        ("nested invalid default", 12, |n| proto(format!("record A {{ union {{ int, A, map<A> }} f; }} record R {{ A a = {}true{}; }}", "{\"f\":".repeat(n), "}".repeat(n)))),
        ("nested invalid default of mutual types", 12, |n| proto(format!("record B {{ union {{ int, A, B, map<B> }} f; }} record A {{ union {{ int, A, B, map<A> }} f; }} record R {{ A a = {}true{}; }}", "{\"f\":".repeat(n), "}".repeat(n)))),
        ("defaults of a chain of types", 14, |n| proto(rep(n, |i| if i == 0 { "record R0 { int a = 1; }\n".into() } else { format!("record R{i} {{ R{p} a = {{}}; R{p} b = {{\"a\":{{}}}}; R{p}? c = {{}}; }}\n", p = i - 1) }).replace("{\"a\":{}}", "{}"))),
        ("full defaults of a chain of types", 12, |n| {
            let mut s = "record R0 { int a; }\n".to_string();
            let mut v = "{\"a\":1}".to_string();
            for i in 1..n {
                s.push_str(&format!("record R{i} {{ R{} a; }}\n", i - 1));
                v = format!("{{\"a\":{v}}}");
            }
            proto(format!("{s} record U {{ R{} a = {v}; }}", n - 1))
        }),
        ("defaults", 200, |n| proto(format!("record D {{ int x = 1; string y; }} record R {{\n{}}}\n", rep(n, |i| format!("D a{i} = {{\"y\":\"{i}\"}};\n"))))),
        ("default elements", 200, |n| proto(format!("record D {{ int x = 1; string y; }} record R {{ array<D> a = [{}]; }}\n", rep(n, |i| format!("{}{{\"y\":\"{i}\"}}", if i > 0 { "," } else { "" }))))),
        ("default keys", 200, |n| proto(format!("record D {{ int x = 1; string y; }} record R {{ map<D> a = {{{}}}; }}\n", rep(n, |i| format!("{}\"k{i}\":{{\"y\":\"{i}\"}}", if i > 0 { "," } else { "" }))))),
        ("record default fields", 100, |n| proto(format!("record D {{ {} }} record R {{ D a = {{{}}}; }}\n", rep(n, |i| format!("int f{i}; ")), rep(n, |i| format!("{}\"f{i}\":{i}", if i > 0 { "," } else { "" }))))),
        ("comment", 4000, |n| one(format!("/* {} */ schema int;", "ab * \n".repeat(n)))),
        ("comments", 400, |n| one(format!("{} schema int;", "/* a */ // b\n".repeat(n)))),
        ("doc comment", 1000, |n| proto(format!("/** {} */ record R {{ int a; }}", "a line\n * ".repeat(n)))),
        ("indented doc comment", 1000, |n| proto(format!("/** a\n{} */ record R {{ int a; }}", "       a line\n".repeat(n)))),
        ("doc comments", 100, |n| proto(rep(n, |i| format!("/** doc {i} */ record R{i} {{ /** doc */ int /** more */ a; }}\n")))),
        ("stray doc comments", 60, |n| proto(rep(n, |i| format!("/** stray {i} */\n")) + "record R { int a; }")),
        ("stray doc comments inside", 60, |n| proto(format!("record R {{ {} }}", rep(n, |i| format!("int a{i} /** stray {i} */;\n"))))),
        ("stray characters", 60, |n| proto("#\n".repeat(n) + "record R { int a; }")),
        ("union annotations", 60, |n| proto(format!("record R {{ {} }}", rep(n, |i| format!("@x({i}) union {{ int, null }} a{i};\n"))))),
        ("string", 4000, |n| proto(format!("record R {{ string a = \"{}\"; }}", "abc ".repeat(n)))),
        ("escapes", 2000, |n| proto(format!("record R {{ string a = \"{}\"; }}", "\\u0041\\n\\101".repeat(n)))),
        ("integer digits", 1000, |n| proto(format!("record R {{ long a = {}1; }}", "0".repeat(n)))),
        ("decimals", 2000, |n| proto(format!("record R {{ double a = 0.{}; }}", "123".repeat(n)))),
        ("hexadecimal float", 2000, |n| proto(format!("record R {{ double a = 0x1.{}p3; }}", "1ab".repeat(n)))),
        ("annotations", 200, |n| proto(format!("{} record R {{ int a; }}", rep(n, |i| format!("@a{i}(1)\n"))))),
        ("annotation elements", 400, |n| proto(format!("@a([{}]) record R {{ int a; }}", rep(n, |i| format!("{}{i}", if i > 0 { "," } else { "" }))))),
        ("aliases", 200, |n| proto(format!("@aliases([{}]) record R {{ int a; }}", rep(n, |i| format!("{}\"a.A{i}\"", if i > 0 { "," } else { "" }))))),
        ("namespace", 400, |n| one(format!("namespace {}z; schema R; record R {{ R? a; }}", "abc.".repeat(n)))),
        ("long names", 400, |n| proto(format!("record R{x} {{ int f{x}; R{x}? g; }}", x = "x".repeat(n)))),
        ("undefined names", 60, |n| proto(format!("record R {{ {} }}", rep(n, |i| format!("U{i} a{i};\n"))))),
        ("undefined names among types", 40, |n| proto(rep(n, |i| format!("record Record{i} {{ Recodr{i} a; }}\n")))),
        ("invalid defaults", 60, |n| proto(format!("record D {{ int y; }} record R {{ {} }}", rep(n, |i| format!("D a{i} = {{}};\n"))))),
        ("syntax errors", 60, |n| proto("record { int; } \n".repeat(n))),
        ("duplicate types", 60, |n| proto("record R { int a; } \n".repeat(n))),
        ("imports", 40, |n| {
            let mut f = one("schema int;\n".to_string() + &rep(n, |i| format!("import idl \"f{i}.avdl\";\n")));
            f.extend((0..n).map(|i| (format!("f{i}.avdl"), format!("record R{i} {{ int a; }}"))));
            f
        }),
        ("imports of one file", 100, |n| {
            let mut f = one("schema int;\n".to_string() + &"import idl \"f.avdl\";\n".repeat(n));
            f.push(("f.avdl".into(), format!("record R {{ int a; }} record S {{ {} }}", rep(100, |i| format!("int a{i}; ")))));
            f
        }),
        ("import chain", 40, |n| {
            let mut f = one("schema int;\nimport idl \"f0.avdl\";".into());
            f.extend((0..n).map(|i| (format!("f{i}.avdl"), format!("{}record R{i} {{ int a; }}", if i + 1 < n { format!("import idl \"f{}.avdl\"; ", i + 1) } else { String::new() }))));
            f
        }),
        ("import ladder", 15, |n| {
            let mut f = one("schema int;\nimport idl \"a0.avdl\"; import idl \"b0.avdl\";".into());
            for i in 0..n {
                for x in ["a", "b"] {
                    f.push((format!("{x}{i}.avdl"), format!("{}record R{x}{i} {{ int a; }}", if i + 1 < n { format!("import idl \"a{j}.avdl\"; import idl \"b{j}.avdl\"; ", j = i + 1) } else { String::new() })));
                }
            }
            f
        }),
        ("ladder of protocols", 15, |n| {
            let mut f = one("protocol P { import idl \"a0.avdl\"; import idl \"b0.avdl\"; }".into());
            for i in 0..n {
                for x in ["a", "b"] {
                    f.push((format!("{x}{i}.avdl"), format!("protocol P{x}{i} {{ {} record R{x}{i} {{ int a; }} void m{x}{i}(R{x}{i} r); }}", if i + 1 < n { format!("import idl \"a{j}.avdl\"; import idl \"b{j}.avdl\"; ", j = i + 1) } else { String::new() })));
                }
            }
            f
        }),
        ("imports of each other", 14, |n| {
            let all = rep(n, |j| format!("import idl \"f{j}.avdl\"; "));
            let mut f = one(format!("schema int; {all}"));
            f.extend((0..n).map(|i| (format!("f{i}.avdl"), format!("{} record R{i} {{ int a; }}", if i % 4 == 0 { all.clone() } else { format!("import idl \"f{}.avdl\"; import idl \"f{}.avdl\";", (i + 1) % n, (i * 2) % n) }))));
            f
        }),
        ("imported JSON types", 60, |n| {
            let mut f = one("protocol P { import protocol \"p.avpr\"; record U { R1 a; } }".into());
            let t: Vec<_> = (0..n).map(|i| json!({"type": "record", "name": format!("R{i}"), "fields": [{"name": "a", "type": if i == 0 { json!("int") } else { json!({"type": "array", "items": format!("R{}", i - 1)}) }}, {"name": "b", "type": if i == 0 { "int".to_string() } else { format!("R{}", i - 1) }}]})).collect();
            f.push(("p.avpr".into(), json!({"protocol": "Q", "types": t, "messages": {}}).to_string()));
            f
        }),
        ("nested JSON types", 12, |n| {
            let mut t = json!("int");
            for i in 0..n {
                t = json!({"type": "record", "name": format!("R{i}"), "fields": [{"name": "f", "type": {"type": "array", "items": t}}, {"name": "g", "type": {"type": "map", "values": {"type": "enum", "name": format!("E{i}"), "symbols": ["A"]}}}]});
            }
            vec![("main.avdl".into(), "protocol P { import schema \"s.avsc\"; }".into()), ("s.avsc".into(), t.to_string())]
        }),
        ("JSON messages", 60, |n| {
            let m: serde_json::Map<String, serde_json::Value> = (0..n).map(|i| (format!("m{i}"), json!({"request": [{"name": "a", "type": "R"}], "response": "R", "errors": ["X"]}))).collect();
            vec![
                ("main.avdl".into(), "protocol P { import protocol \"p.avpr\"; }".into()),
                ("p.avpr".into(), json!({"protocol": "Q", "types": [{"type": "record", "name": "R", "fields": []}, {"type": "error", "name": "X", "fields": []}], "messages": m}).to_string()),
            ]
        }),
        ("JSON files", 30, |n| {
            let mut f = one(format!("protocol P {{ {} }}", rep(n, |i| format!("import schema \"s{i}.avsc\";\n"))));
            f.extend((0..n).map(|i| (format!("s{i}.avsc"), json!({"type": "record", "name": format!("R{i}"), "fields": [{"name": "a", "type": if i == 0 { "int".to_string() } else { format!("R{}", i - 1) }}]}).to_string())));
            f
        }),
        ("namespaces", 60, |n| proto(rep(n, |i| format!("@namespace(\"n{i}\") record R {{ n{}.R a; n{}.R b; }}\n", (i + 1) % n, (i * 3) % n)))),
        ("references to one type", 200, |n| proto(format!("record T {{ int a; }} record R {{ {} }}", rep(n, |i| format!("T a{i};\n"))))),
        ("messages using all", 40, |n| proto(rep(n, |i| format!("record R{i} {{ R{} a; R{} b; }}\n", (i + 1) % n, (i + 7) % n)) + &rep(n, |i| format!("R{i} m{i}(array<R{}> a, map<R{}> b);\n", (i * 5) % n, (i * 3) % n)))),
    ]
}
/// A random kind of link, chained: each type refers to its neighbours in one to
/// four places.
fn random_chain(r: &mut Rng) -> (String, usize, Box<dyn Fn(usize) -> Files>) {
    #[derive(Clone)]
    struct Link {
        ty: String,
        def: Option<String>,
        to: isize,
    }
    let forward = r.chance(50);
    let mut links = vec![];
    for _ in 0..r.range(1, 4) {
        let shapes: &[(&str, &[&str])] = &[
            ("@", &["{}"]),
            ("@?", &["null", "{}"]),
            ("array<@>", &["[]", "[{}]", "[{}, {}]"]),
            ("map<@>", &["{}", "{\"k\":{}}", "{\"k\":{},\"l\":{}}"]),
            ("union { null, @ }", &["null", "{}"]),
            ("union { @, null, int }", &["null", "{}", "1"]),
            ("array<map<@>>", &["[]", "[{}]", "[{\"k\":{}}]"]),
            ("map<union { null, array<@> }>", &["{}", "{\"k\":[{}]}"]),
            ("union { @, map<@> }", &["{}"]),
            ("array<array<array<@?>>>", &["[]", "[[[{}]]]"]),
        ];
        let (t, d) = r.pick(shapes);
        let to = match r.below(6) {
            0 => 0,
            1 => 2,
            2 => 3,
            _ => 1,
        };
        // a default can only be judged when the type is defined before
        let def = if r.chance(60) { Some(r.pick(d).to_string()) } else { None };
        links.push(Link { ty: t.to_string(), def, to: if forward { to } else { -to } });
    }
    let extra = *r.pick(&["", "int z; ", "/** doc */ string z = \"a\"; ", "@x([1,2]) long z = 1; "]);
    let kind = *r.pick(&["record", "record", "error"]);
    let nsd = r.chance(30);
    let place = r.below(4);
    let tail = r.below(3);
    let name = format!("chain {} {:?} {kind} {place} {tail} {nsd}", if forward { "forward" } else { "backward" }, links.iter().map(|l| format!("{} {:?} {}", l.ty, l.def, l.to)).collect::<Vec<_>>());
    let f = move |n: usize| -> Files {
        let full = |i: usize| if nsd { format!("n{}.R{i}", i % 3) } else { format!("R{i}") };
        let decl = |i: usize| {
            let mut b = String::new();
            for (k, l) in links.iter().enumerate() {
                let j = i as isize + l.to;
                let t = if j < 0 || j >= n as isize { "int".to_string() } else { l.ty.replace('@', &full(j as usize)) };
                let d = match &l.def {
                    // forward references have their defaults checked leniently
                    Some(d) if t != "int" && (l.to < 0) => format!(" = {d}"),
                    None if t == "int" || !extra.is_empty() => " ".into(),
                    _ => String::new(),
                };
                b.push_str(&format!("{t} f{k}{d}; "));
            }
            let ns = if nsd { format!("@namespace(\"n{}\") ", i % 3) } else { String::new() };
            format!("{ns}{kind} R{i} {{ {b}{extra}}}\n")
        };
        let decls: Vec<String> = (0..n).map(decl).collect();
        let end = match tail {
            0 => String::new(),
            1 => format!("{} last(array<{}> x);\n", full(0), full(n - 1)),
            _ => format!("record Last {{ {}? a; {} b; }}\n", full(n - 1), full(0)),
        };
        match place {
            // each type in a file of its own, all imported
            1 => {
                let mut f = one(format!("protocol P {{ {} {end} }}", rep(n, |i| format!("import idl \"f{i}.avdl\"; "))));
                f.extend(decls.into_iter().enumerate().map(|(i, d)| (format!("f{i}.avdl"), d)));
                f
            }
            // half of them in one other file
            2 => {
                let h = n / 2;
                vec![("main.avdl".into(), format!("protocol P {{ import idl \"f.avdl\"; {} {end} }}", decls[h..].concat())), ("f.avdl".into(), decls[..h].concat())]
            }
            _ => one(format!("protocol P {{ {}{end} }}", decls.concat())),
        }
    };
    (name, 16, Box::new(f))
}
fn cost(dir: &Path, files: &Files, ext: bool) -> (Cost, Out) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    for (f, t) in files {
        std::fs::write(dir.join(f), t).unwrap();
    }
    let main = dir.join("main.avdl");
    let mut i = avdl::Idl::new();
    let mut e = avdl::Idl2Schemata::new();
    let (b0, _) = crate::alloc::used();
    let t = cpu();
    // the call alone, without the monitor's reading of its outcome
    let r = obs::guard(|| if ext { e.extract(&main).map(|_| ()) } else { i.convert(&main).map(|_| ()) });
    let secs = cpu() - t;
    let (b1, _) = crate::alloc::used();
    let ok = matches!(r, Ok(Ok(())));
    let out = match r {
        Err(p) => Out::Panic(p),
        _ => Out::Schemata { schemas: vec![], warns: vec![] },
    };
    (Cost { bytes: b1 - b0, secs, ok }, out)
}
/// Largest tolerated growth when the program doubles: compiling is linear today,
/// reports of many errors and extraction (each schema repeats the types it uses)
/// are quadratic at worst.
fn limit(ext: bool, ok: bool) -> f64 {
    if ok && !ext { 3.2 } else { 4.7 }
}
fn measure(ctx: &mut Ctx, name: &str, n0: usize, make: &dyn Fn(usize) -> Files, steps: usize) {
    let dir = ctx.fresh();
    for ext in [false, true] {
        let mut last: Option<(u64, usize)> = None;
        let mut line = vec![];
        for k in 0..steps {
            let n = n0 << k;
            let files = make(n);
            let text: usize = files.iter().map(|f| f.1.len()).sum();
            ctx.keep(&files.iter().take(3).cloned().collect::<Vec<_>>());
            let (c, o) = cost(&dir, &files, ext);
            ctx.eval();
            ctx.count("compilations measured", 1);
            ctx.count(if c.ok { "accepted" } else { "rejected" }, 1);
            ctx.count("bytes allocated by measured compilations", c.bytes);
            ctx.shape(&format!("{name} {n}"));
            let how = if ext { "extracting" } else { "compiling" };
            let short: Files = files.iter().take(4).map(|(f, t)| (f.clone(), t.chars().take(4000).collect())).collect();
            if let Out::Panic(p) = o {
                ctx.fail("panic", format!("{name}, {n}: {p}"), &short);
            }
            if c.secs > 30.0 {
                ctx.fail("slow", format!("{name}: {how} {n} ({text} bytes of source) took {:.1} s", c.secs), &short);
            }
            line.push(format!("{n}: {text} -> {} {:.4}s", c.bytes, c.secs));
            if let Some((lb, lt)) = last {
                let grow = c.bytes as f64 / lb as f64;
                let src = (text as f64 / lt as f64).max(2.0) / 2.0;
                let limit = limit(ext, c.ok) * src * src;
                // small programs are dominated by fixed costs, so a ratio there only helps
                if grow > limit {
                    ctx.fail("growth", format!("{name}: {how} twice as many ({n}) allocates {grow:.2} times as much ({lb} -> {} bytes; source {lt} -> {text} bytes)", c.bytes), &short);
                    break;
                }
                ctx.count("doublings compared", 1);
            }
            last = Some((c.bytes, text));
        }
        if std::env::var_os("MON_TRACE").is_some() {
            let b: Vec<f64> = line.iter().filter_map(|l| l.split("-> ").nth(1)?.split(' ').next()?.parse().ok()).collect();
            eprintln!("{:5.2} {} {name}: {}", b.last().unwrap() / b[b.len() - 2], if ext { "ext" } else { "idl" }, line.join("  "));
        }
    }
}
/// processor time of this thread
fn cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 / 1e9
}
/// Families that repeat one construct, grown to thousands of repetitions, where
/// work that compares each with all others would outweigh everything else.
fn wide_families() -> Vec<(&'static str, usize, fn(usize) -> Files)> {
    // not repetitions, too deep for one thread's stack, or quadratic as reports
    let no = ["nested", "chain", "forward", "recursive", "messages using all", "namespaces", "ladder", "of each other", "stray characters", "undefined names among types"];
    let mut v: Vec<_> = families().into_iter().filter(|f| !no.iter().any(|x| f.0.contains(x))).collect();
    fn with(main: &str, name: &str, v: serde_json::Value) -> Files {
        vec![("main.avdl".into(), main.into()), (name.into(), v.to_string())]
    }
    const S: &str = "protocol P { import schema \"s.avsc\"; }";
    const Q: &str = "protocol P { import protocol \"p.avpr\"; }";
    let more: Vec<(&'static str, usize, fn(usize) -> Files)> = vec![
        ("branches defined later", 100, |n| proto(format!("record U {{ union {{ {} }} u; }}", rep(n, |i| format!("{}R{i}", if i > 0 { ", " } else { "" }))) + &rep(n, |i| format!("record R{i} {{ int a; }}\n")))),
        ("branches in other namespaces", 100, |n| proto(rep(n, |i| format!("@namespace(\"n{i}\") fixed R(4);\n")) + &format!("record U {{ union {{ {} }} u; }}", rep(n, |i| format!("{}n{i}.R", if i > 0 { ", " } else { "" }))))),
        ("namespaces of one name", 100, |n| proto(rep(n, |i| format!("@namespace(\"n{i}\") record R {{ n0.R? a; }}\n")))),
        ("fields of one record type each", 100, |n| proto(rep(n, |i| format!("record R{i} {{ int a; }}\n")) + &format!("record U {{ {} }}", rep(n, |i| format!("R{i} a{i};\n"))))),
        ("responses", 100, |n| proto(rep(n, |i| format!("record R{i} {{ int a; }}\nR{i} m{i}(R{i} a) throws X;\n")) + "error X { string s; }")),
        ("one-way messages", 100, |n| proto(rep(n, |i| format!("@a({i}) void m{i}(int a = {i}) oneway;\n")))),
        ("undefined throws", 60, |n| proto(format!("void f() throws {};", rep(n, |i| format!("{}E{i}", if i > 0 { ", " } else { "" }))))),
        ("undefined branches", 60, |n| proto(format!("record R {{ union {{ {} }} a; }}", rep(n, |i| format!("{}E{i}", if i > 0 { ", " } else { "" }))))),
        ("fixed types", 100, |n| proto(rep(n, |i| format!("@aliases([\"n.A{i}\"]) @x({{\"k\":{i}}}) fixed F{i}({});\n", i + 1)))),
        ("enum types", 100, |n| proto(rep(n, |i| format!("/** doc */ enum E{i} {{ A{i}, B, C }} = B;\n")))),
        ("field aliases", 200, |n| proto(format!("record R {{ {} }}", rep(n, |i| format!("int @aliases([\"b{i}\"]) @order(\"ignore\") a{i};\n"))))),
        ("object members", 200, |n| proto(format!("@a({{{}}}) record R {{ int a; }}", rep(n, |i| format!("{}\"k{i}\":[{i}]", if i > 0 { "," } else { "" }))))),
        ("field annotations", 200, |n| proto(format!("record R {{ int {} a; }}", rep(n, |i| format!("@k{i}({i})\n"))))),
        ("type annotations", 200, |n| proto(format!("record R {{ {} int a; }}", rep(n, |i| format!("@k{i}({i})\n"))))),
        ("message annotations", 200, |n| proto(format!("{} int m();", rep(n, |i| format!("@k{i}({i})\n"))))),
        ("strings", 200, |n| proto(format!("record R {{ {} }}", rep(n, |i| format!("string a{i} = \"\\u00e9 {i} \\n\";\n"))))),
        ("array elements", 400, |n| proto(format!("record R {{ array<long> a = [{}]; }}", rep(n, |i| format!("{}{i}", if i > 0 { "," } else { "" }))))),
        ("enum defaults", 200, |n| proto(format!("enum E {{ A, B }} record R {{ {} }}", rep(n, |i| format!("E a{i} = \"A\";\n"))))),
        ("enum branches defaults", 100, |n| proto(format!("{} record R {{ union {{ {} }} a = \"A\"; }}", rep(n, |i| format!("enum E{i} {{ A, B }}\n")), rep(n, |i| format!("{}E{i}", if i > 0 { "," } else { "" }))))),
        ("lines", 4000, |n| one(format!("schema int; {}", "\n".repeat(n)))),
        ("text in one line", 200, |n| proto(format!("record R {{ {} }}", rep(n, |i| format!("int a{i}; "))))),
        ("text after SUB", 4000, |n| one(format!("schema int; \u{1a} {}", "record R {\n".repeat(n)))),
        ("carriage returns", 200, |n| proto(format!("record R {{\r\n{}}}", rep(n, |i| format!("/** a\r\n * b */ int a{i};\r\n"))))),
        ("quoted names", 200, |n| proto(format!("record R {{\n{}}}", rep(n, |i| format!("`int` `a{i}`;\n")).replace("`int`", "int")))),
        ("JSON symbols", 300, |n| with(S, "s.avsc", json!({"type": "enum", "name": "E", "symbols": (0..n).map(|i| format!("S{i}")).collect::<Vec<_>>()}))),
        ("JSON fields", 200, |n| with(S, "s.avsc", json!({"type": "record", "name": "R", "fields": (0..n).map(|i| json!({"name": format!("a{i}"), "type": ["null", "int"], "default": null, "aliases": [format!("b{i}")]})).collect::<Vec<_>>()}))),
        ("JSON branches", 100, |n| with(S, "s.avsc", json!({"type": "record", "name": "U", "fields": [{"name": "u", "type": (0..n).map(|i| json!({"type": "fixed", "name": format!("n{i}.F"), "size": 4})).collect::<Vec<_>>()}]}))),
        ("JSON types in one array", 100, |n| with(Q, "p.avpr", json!({"protocol": "Q", "namespace": "q", "types": (0..n).map(|i| json!({"type": "record", "name": format!("R{i}"), "namespace": format!("n{i}"), "fields": [{"name": "a", "type": ["null", format!("n{i}.R{i}")]}]})).collect::<Vec<_>>(), "messages": {}}))),
        ("JSON references", 200, |n| with(S, "s.avsc", json!({"type": "record", "name": "R", "fields": (0..n).map(|i| json!({"name": format!("a{i}"), "type": if i == 0 { json!({"type": "fixed", "name": "F", "size": 1}) } else { json!({"type": "array", "items": "F"}) }})).collect::<Vec<_>>()}))),
        ("JSON properties", 200, |n| {
            let mut v = json!({"type": "record", "name": "R", "fields": []});
            for i in 0..n {
                v[format!("p{i}")] = json!([i]);
            }
            with(S, "s.avsc", v)
        }),
        ("JSON parameters", 200, |n| with(Q, "p.avpr", json!({"protocol": "Q", "types": [], "messages": {"m": {"request": (0..n).map(|i| json!({"name": format!("a{i}"), "type": "int"})).collect::<Vec<_>>(), "response": "null"}}}))),
        ("JSON errors", 100, |n| with(Q, "p.avpr", json!({"protocol": "Q", "types": (0..n).map(|i| json!({"type": "error", "name": format!("X{i}"), "fields": []})).collect::<Vec<_>>(), "messages": {"m": {"request": [], "response": "null", "errors": (0..n).map(|i| format!("X{i}")).collect::<Vec<_>>()}}}))),
        ("JSON repeats of a type", 100, |n| with(Q, "p.avpr", json!({"protocol": "Q", "types": (0..n).map(|_| json!({"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}]})).collect::<Vec<_>>(), "messages": {}}))),
        ("messages of imported protocols", 100, |n| {
            let mut f = one(format!("protocol P {{ {} }}", rep(n, |i| format!("import idl \"f{i}.avdl\";\n"))));
            f.extend((0..n).map(|i| (format!("f{i}.avdl"), format!("protocol Q{i} {{ int m{i}(int a); }}"))));
            f
        }),
    ];
    v.extend(more);
    v
}
/// As `measure`, with sizes grown fourfold until one compilation takes most of a
/// second, comparing processor time as well.
fn measure_wide(ctx: &mut Ctx, name: &str, n0: usize, make: &dyn Fn(usize) -> Files) {
    let dir = ctx.fresh();
    // files are many: stop earlier, but opening them hides other work
    let (n0, most, secs) = if make(2).len() > 2 { (n0, 12_000, 2.0) } else { (n0 * 4, 300_000, 0.7) };
    let mut n = n0;
    let mut last: Option<(Cost, usize)> = None;
    let mut line = String::new();
    loop {
        let files = make(n);
        let text: usize = files.iter().map(|f| f.1.len()).sum();
        let short: Files = files.iter().take(4).map(|(f, t)| (f.clone(), t.chars().take(4000).collect())).collect();
        let (mut c, o) = cost(&dir, &files, false);
        ctx.eval();
        ctx.count("compilations measured", 1);
        ctx.count(if c.ok { "accepted" } else { "rejected" }, 1);
        ctx.count("bytes allocated by measured compilations", c.bytes);
        ctx.shape(&format!("wide {name} {n}"));
        if let Out::Panic(p) = o {
            ctx.fail("panic", format!("{name}, {n}: {p}"), &short);
        }
        if c.secs > 60.0 {
            ctx.fail("slow", format!("{name}: compiling {n} ({text} bytes of source) took {:.1} s", c.secs), &short);
        }
        line.push_str(&format!("  {n}: {} bytes {:.3}s", c.bytes, c.secs));
        if let Some((l, lt)) = &last {
            let src = text as f64 / *lt as f64;
            if l.bytes > 1 << 20 && c.bytes as f64 / l.bytes as f64 > src * 1.6 {
                ctx.fail("growth", format!("{name}: {n} (source {lt} -> {text} bytes) allocate {:.2} times as much as a quarter of them ({} -> {} bytes)", c.bytes as f64 / l.bytes as f64, l.bytes, c.bytes), &short);
                break;
            }
            // below, fixed costs and the clock's noise blur the ratio
            let mut floor = l.secs;
            if floor > 0.01 {
                for again in 0..4 {
                    if c.secs / floor <= src * 2.2 || c.secs < 0.2 {
                        break;
                    }
                    if again == 3 {
                        ctx.fail("time", format!("{name}: {n} (source {lt} -> {text} bytes) take {:.1} times as long as a quarter of them ({floor:.3} s -> {:.3} s of processor time, least of four)", c.secs / floor, c.secs), &short);
                        break;
                    }
                    // once more, in case the machine was busy
                    floor = floor.max(cost(&dir, &make(n / 4), false).0.secs);
                    c.secs = c.secs.min(cost(&dir, &files, false).0.secs);
                }
                ctx.count("quadruplings compared in time", 1);
            }
            ctx.count("doublings compared", 2);
        }
        let enough = c.secs > secs || n * 4 > most;
        last = Some((c, text));
        if enough {
            break;
        }
        n *= 4;
    }
    if std::env::var_os("MON_TRACE").is_some() {
        eprintln!("wide {name}:{line} ok={}", last.unwrap().0.ok);
    }
}
pub fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let fam = families();
    let k = ctx.case as usize;
    let wide = wide_families();
    if k < wide.len() {
        let (name, n0, f) = wide[k];
        measure_wide(ctx, name, n0, &f);
        ctx.count("wide families", 1);
        return;
    }
    let k = k - wide.len();
    if k < fam.len() {
        let (name, n0, f) = fam[k];
        measure(ctx, name, n0, &f, if n0 <= 15 { 3 } else { 4 });
        ctx.count("fixed families", 1);
        return;
    }
    let (name, n0, f) = random_chain(&mut r);
    measure(ctx, &name, n0, &*f, 3);
    ctx.count("random families", 1);
    let files = f(3);
    ctx.sample(|| json!({"family": name, "three links": files}));
}
