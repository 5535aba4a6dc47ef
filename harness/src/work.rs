//! Programs of every kind, for the monitors that judge runs rather than
//! meanings: valid, invalid in one or many ways, with warnings, and mutated.
use crate::ast::*;
use crate::gen_::{self, Cfg};
use crate::m_model::*;
use crate::rng::Rng;
use crate::{m_multi, m_neg, m_warn};
use serde_json::json;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct Prog {
    pub dir: PathBuf,
    pub main: PathBuf,
    pub dirs: Vec<PathBuf>,
    /// (path below dir, text); the first is the main file
    pub files: Vec<(String, Vec<u8>)>,
    pub kind: &'static str,
}
impl Prog {
    pub fn write(&self) {
        for d in &self.dirs {
            let _ = std::fs::create_dir_all(d);
        }
        for (p, t) in &self.files {
            let p = self.dir.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, t).unwrap();
        }
    }
    pub fn texts(&self) -> Vec<(String, String)> {
        self.files.iter().map(|(p, t)| (p.clone(), String::from_utf8_lossy(t).into_owned())).collect()
    }
    pub fn main_text(&self) -> Option<&str> {
        std::str::from_utf8(&self.files[0].1).ok()
    }
}
fn of(b: Built, kind: &'static str) -> Prog {
    Prog { dir: b.dir, main: b.main, dirs: b.dirs, files: b.files.into_iter().map(|(p, t)| (p, t.into_bytes())).collect(), kind }
}
/// Like `spell`, but some imported files are found through import directories
/// only, and of several directories with a file of that name the first counts.
fn spell_dirs(mut w: World, dir: &Path, r: &mut Rng) -> Built {
    let mut decoys = vec![];
    if w.files.len() > 1 && r.chance(45) {
        let mut dirs = vec!["inc a".to_string(), "inc/b".to_string(), "inc_c".to_string()];
        r.shuffle(&mut dirs);
        dirs.truncate(r.range(1, 3));
        for j in 1..w.files.len() {
            if r.chance(35) {
                continue;
            }
            let name = w.files[j].path.rsplit('/').next().unwrap().to_string();
            let name = if r.chance(30) { format!("x y/{name}") } else { name };
            let k = r.below(dirs.len());
            w.files[j].path = format!("{}/{name}", dirs[k]);
            for i in 0..w.files.len() {
                if let FileBody::Idl(f) = &mut w.files[i].body {
                    for it in &mut f.items {
                        if let Item::Import { target, path } = it {
                            if *target == j {
                                *path = Some(name.clone());
                            }
                        }
                    }
                }
            }
            for d in &dirs[k + 1..] {
                if r.chance(50) {
                    decoys.push((format!("{d}/{name}"), r.pick(&["record Decoy { int decoy; }", "{\"type\":\"fixed\",\"name\":\"Decoy\",\"size\":1}", "not a program"]).to_string()));
                }
            }
        }
        // a decoy must not lie beside a file that imports what it stands for
        let at = |p: &str| p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
        for i in 0..w.files.len() {
            if let FileBody::Idl(f) = &w.files[i].body {
                for it in &f.items {
                    if let Item::Import { path: Some(p), .. } = it {
                        let here = at(&w.files[i].path);
                        decoys.retain(|d| d.0 != format!("{here}/{p}"));
                    }
                }
            }
        }
        w.import_dirs = dirs;
    }
    let mut b = spell(&w, dir, r, &mut style_of);
    for d in decoys {
        b.files.push(d);
        b.marks.push(vec![]);
    }
    b
}
pub fn valid(dir: &Path, r: &mut Rng) -> Prog {
    let cfg = match r.below(8) {
        0 => Cfg::imports(),
        1 => Cfg { idl_imports: (1, 5), json_imports: (0, 3), types: (2, 9), ..Cfg::small() },
        2 => Cfg { msgs: (1, 6), idl_imports: (0, 3), json_imports: (0, 2), mode: (100, 0, 0), ..Cfg::small() },
        3 => Cfg { p_doc: 50, p_prop: 50, p_alias: 30, ..Cfg::small() },
        4 => Cfg { p_ref: 80, types: (2, 12), namespaces: (2, 4), null_ns: 40, ..Cfg::small() },
        5 => Cfg { json_imports: (1, 3), types: (3, 8), p_prop: 30, ..Cfg::small() },
        _ => Cfg { mode: (40, 25, 35), ..Cfg::small() },
    };
    let w = gen_::world(&cfg, r);
    of(spell_dirs(w, dir, r), "valid")
}
fn undefined(dir: &Path, r: &mut Rng) -> Prog {
    let mut w = m_multi::base_world(r, 0);
    let fs: Vec<usize> = (0..w.files.len()).filter(|i| matches!(w.files[*i].body, FileBody::Idl(_))).collect();
    let mut used = vec![false; w.files.len()];
    for i in 0..r.range(2, 9) {
        let f = *r.pick(&fs);
        let n = *r.pick(&["Zz_u", "zz.q.Zz_u", "Strin", "itn", "zz.r.Zz_v", "\u{e9}t\u{e9}"]);
        let n = if r.chance(70) { format!("{n}{i}") } else { n.to_string() };
        m_multi::place(&mut w, f, n, i, &mut used[f], r);
    }
    for f in &mut w.files {
        if let FileBody::Json(j) = &mut f.body {
            for d in &mut j.decls {
                if let Body::Record { fields, .. } = &mut d.body {
                    if r.chance(30) {
                        let var = Var { name: "zzj".into(), doc: None, props: vec![], aliases: None, order: None, default: None, raw_default: None };
                        fields.push(FieldDecl { doc: None, ty: Ty::of(TyK::Ref(Name::new("zz.json", &format!("U{}", r.below(4))))), vars: vec![var] });
                    }
                }
            }
        }
    }
    of(spell_dirs(w, dir, r), "several undefined names")
}
fn defaults(dir: &Path, r: &mut Rng) -> Prog {
    let mut w = m_multi::base_world(r, 0);
    let mut body = String::new();
    for i in 0..r.range(2, 9) {
        body.push_str(&format!("{} f{i} = {}; ", r.pick(&["ZzR", "ZzR?", "map<ZzR>", "union{ZzR,int}"]), r.pick(&["{}", "{\"a\":\"x\",\"b\":{\"c\":2}}", "true", "{\"k\":{\"a\":1,\"z\":2}}"])));
    }
    let at = r.below(w.main().items.len() + 1);
    w.main_mut().items.insert(at, Item::Raw(format!("record ZzR {{ int a; record_ b = \"\"; string c; }} record ZzO {{ {body} }}").replace("record_", "string")));
    of(spell_dirs(w, dir, r), "several invalid defaults")
}
fn warned(dir: &Path, r: &mut Rng) -> Prog {
    let mut p = match r.below(3) {
        0 => undefined(dir, r),
        _ => valid(dir, r),
    };
    for (n, t) in &mut p.files {
        if !n.ends_with(".avdl") {
            continue;
        }
        let s = String::from_utf8(t.clone()).unwrap();
        let toks = m_warn::tokens(&s);
        let mut at: Vec<usize> = (0..r.below(6)).filter_map(|_| toks.get(r.below(toks.len().max(1))).map(|x| x.0)).collect();
        at.sort();
        let mut out = s.clone();
        for a in at.into_iter().rev() {
            out.insert_str(a, r.pick(&[" # ", " /** zz stray */ ", " \u{1F600} ", " /** two */ /** docs */ ", " ~ "]));
        }
        *t = out.into_bytes();
    }
    p.kind = "with warnings";
    p
}
pub const BITS: &[&str] = &[
    "{", "}", "(", ")", "<", ">", "[", "]", ",", ";", "=", "?", "@", "\"", "`", "'", "/*", "*/", "/**", "//", "/**/", ".", "-", ":", "\u{1a}", "\0", "\u{feff}", "\r", "\n", "\r\n", "\u{2028}", "\u{85}",
    "\u{1F600}", "e\u{301}", "\u{e9}", "\u{202e}", "\u{10ffff}", "\u{e000}", "protocol", "namespace", "import", "idl", "schema", "record", "error", "enum", "fixed", "array", "map", "union", "void", "oneway", "throws", "null", "true",
    "NaN", "Infinity", "-Infinity", "decimal(1,2)", "decimal(0)", "decimal(-1)", "decimal(99999999999)", "fixed F(99999999999);", "fixed F(-1);", "0x", "0xG", "08", "1e999999", "-0", "9223372036854775808", "-9223372036854775808", "0x1p-1074",
    "1e-400", "0x.8p1f", "\"\\u\"", "\"\\uD800\"", "\"\\uD83D\\uDE00\"", "\"\\400\"", "\"\\x\"", "\"\\\"", "\"unterminated\n", "@namespace(\"\")", "@namespace(1)", "@aliases([])", "@aliases([\"\"])", "@order(\"ignore\")", "@logicalType(\"decimal\")",
    "@logicalType(\"decimal\") @precision(5) @scale(9)", "@precision(1e3)", "@type(\"int\")", "@name(\"x\")", "@a({\"b\":[1,2,{}]})", "int a = 1;", "string s = null;", "int? x = 3;", "union { null, null } u;", "union {} u;", "record R { R r; }",
    "array<array<array<int>>>", "import schema \"x.avsc\";", "import idl \"main.avdl\";", "import protocol \"\";", "schema int;", "namespace a.b;", "namespace `a`.`b`;", "protocol P {", "enum E { A, A }", "enum E { A } = B;", "void m() oneway;", "`int`", "``", "`a", "$x", "a-b", "a..b", ".a", "a.",
];
/// A doc comment of oddly indented and decorated lines.
pub fn odd_doc(r: &mut Rng) -> String {
    let ws = [" ", " ", "\t", "\u{3000}", "\u{a0}", "\u{2028}", "\u{b}", "\u{c}", "\u{85}", "\u{1680}", "\u{feff}", "\u{2003}"];
    let few: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(&ws)).collect();
    let mut s = String::from("/**");
    let star = r.below(4);
    for i in 0..r.range(1, 7) {
        if i > 0 || r.chance(50) {
            s.push_str(r.pick(&["\n", "\n", "\n", "\r\n", "\r", "\n\n"]));
        }
        for _ in 0..r.below(5) {
            s.push_str(r.pick(&few));
        }
        match star {
            0 => s.push('*'),
            1 => s.push_str("**"),
            2 if r.chance(50) => s.push('*'),
            _ => {}
        }
        for _ in 0..r.below(2) {
            s.push_str(r.pick(&few));
        }
        s.push_str(r.pick(&["x", "", "caf\u{e9}", "\u{4f60}\u{597d}", "\u{1F600}", "* x", "e\u{301}", "\\", "$1"]));
        for _ in 0..r.below(2) {
            s.push_str(r.pick(&few));
        }
    }
    s.push_str("*/");
    s
}
/// Change a text somewhere.
pub fn mutate(s: &str, donor: &str, r: &mut Rng) -> Vec<u8> {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 5) {
        let n = c.len();
        let p = r.below(n + 1);
        match r.below(15) {
            0 => {
                // cut a short range
                let e = (p + r.below(12)).min(n);
                c.drain(p..e);
            }
            1 => {
                let e = (p + r.below(300)).min(n);
                c.drain(p..e);
            }
            2 => c.truncate(p),
            3 => {
                // repeat a range
                let e = (p + r.below(60)).min(n);
                let x: Vec<char> = c[p..e].to_vec();
                for _ in 0..r.range(1, 4) {
                    c.splice(p..p, x.iter().copied());
                }
            }
            4 => {
                // swap two tokens
                let t: String = c.iter().collect();
                let k = m_warn::tokens(&t);
                if k.len() > 2 {
                    let (a, b) = (r.below(k.len()), r.below(k.len()));
                    let (a, b) = (a.min(b), a.max(b));
                    if k[a].0 + k[a].1.len() <= k[b].0 {
                        let o = format!("{}{}{}{}{}", &t[..k[a].0], k[b].1, &t[k[a].0 + k[a].1.len()..k[b].0], k[a].1, &t[k[b].0 + k[b].1.len()..]);
                        c = o.chars().collect();
                    }
                }
            }
            5 => {
                // drop or double a token
                let t: String = c.iter().collect();
                let k = m_warn::tokens(&t);
                if !k.is_empty() {
                    let x = r.pick(&k).clone();
                    let o = if r.chance(60) { format!("{}{}", &t[..x.0], &t[x.0 + x.1.len()..]) } else { format!("{}{} {}", &t[..x.0], x.1, &t[x.0..]) };
                    c = o.chars().collect();
                }
            }
            6 => {
                // text of another file
                let d: Vec<char> = donor.chars().collect();
                let a = r.below(d.len() + 1);
                let e = (a + r.below(200)).min(d.len());
                c.splice(p..p, d[a..e].iter().copied());
            }
            7 if n > 0 => {
                let p = r.below(n);
                c[p] = char::from_u32(r.below(0x250) as u32).unwrap_or('x');
            }
            8 => {
                // open brackets
                let b = *r.pick(&["array<", "{", "(", "[", "union {", "@a(", "map<", "@a([", "@a({\"x\":", "/* ", "record A {"]);
                let x = b.repeat(r.range(1, 90));
                c.splice(p..p, x.chars());
            }
            13 | 14 => {
                // a doc comment, mostly where it belongs to something
                let t: String = c.iter().collect();
                let k = m_warn::tokens(&t);
                if !k.is_empty() {
                    let own: Vec<usize> = k.iter().filter(|x| ["record", "enum", "fixed", "error", "protocol", "int", "string", "void", "map", "array", "union", "@"].contains(&x.1.as_str())).map(|x| x.0).collect();
                    let at = if !own.is_empty() && r.chance(75) { *r.pick(&own) } else { r.pick(&k).0 };
                    c = format!("{}{}{}", &t[..at], odd_doc(r), &t[at..]).chars().collect();
                }
            }
            9 => {
                let x = *r.pick(&["\r\n", "\r", "\u{85}", "\u{2028}", "\t"]);
                let t: String = c.iter().collect();
                c = t.replace('\n', x).chars().collect();
            }
            _ => {
                let x = *r.pick(BITS);
                let x = if r.chance(50) { format!(" {x} ") } else { x.to_string() };
                c.splice(p..p, x.chars());
            }
        }
        if c.len() > 60_000 {
            c.truncate(60_000);
        }
    }
    let mut b = c.into_iter().collect::<String>().into_bytes();
    if r.chance(2) {
        // not UTF-8
        let p = r.below(b.len() + 1);
        b.insert(p, 0x80 + r.below(0x80) as u8);
    }
    b
}
/// Nothing but tokens.
pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    let words = ["a", "B", "x.y", "int", "string", "1", "\"s\"", "P", "R", "-1", "1.5"];
    if r.chance(60) {
        s.push_str(r.pick(&["protocol P {", "schema ", "namespace a; ", "record R {", "import idl \"f1.avdl\"; ", "@a(", "enum E {", "/** d */ "]));
    }
    for _ in 0..r.range(0, 60) {
        s.push_str(if r.chance(60) { r.pick(BITS) } else { r.pick(&words) });
        if r.chance(80) {
            s.push(' ');
        }
    }
    s
}
pub fn any_json(r: &mut Rng, d: usize) -> serde_json::Value {
    let keys = ["type", "name", "namespace", "fields", "items", "values", "symbols", "size", "protocol", "types", "messages", "request", "response", "errors", "one-way", "default", "doc", "aliases", "order", "logicalType", "precision", "scale", "x"];
    let strs = ["record", "enum", "fixed", "error", "array", "map", "union", "int", "string", "null", "bytes", "R", "a.R", "", ".", "a..b", "decimal", "date", "uuid", "duration", "9x", "\u{e9}", "request"];
    if d == 0 || r.chance(25) {
        return match r.below(8) {
            0 => json!(null),
            1 => json!(true),
            2 => json!(gen_::int(r)),
            3 => json!(gen_::any_float(r)),
            4 => json!(u64::MAX),
            _ => json!(r.pick(&strs)),
        };
    }
    if r.chance(35) {
        return (0..r.below(4)).map(|_| any_json(r, d - 1)).collect();
    }
    let mut m = serde_json::Map::new();
    if r.chance(60) {
        m.insert("type".into(), json!(r.pick(&strs)));
    }
    if r.chance(50) {
        m.insert("name".into(), json!(r.pick(&["R", "E", "F", "a.R", "b", ""])));
    }
    for _ in 0..r.below(5) {
        let v = any_json(r, d - 1);
        m.insert(r.pick(&keys).to_string(), v);
    }
    m.into()
}
fn mutate_json(v: &mut serde_json::Value, r: &mut Rng) {
    use serde_json::Value::*;
    let n = match v {
        Array(a) => a.len(),
        Object(o) => o.len(),
        _ => 0,
    };
    if n > 0 && r.chance(85) {
        let k = r.below(n);
        match v {
            Array(a) => {
                if r.chance(10) {
                    a.remove(k);
                } else if r.chance(8) {
                    let x = a[k].clone();
                    a.push(x);
                } else {
                    mutate_json(&mut a[k], r)
                }
            }
            Object(o) => {
                let key = o.keys().nth(k).unwrap().clone();
                if r.chance(10) {
                    o.remove(&key);
                } else if r.chance(8) {
                    let x = any_json(r, 2);
                    o.insert(r.pick(&["type", "name", "namespace", "default", "logicalType", "aliases", "doc", "order"]).to_string(), x);
                } else {
                    mutate_json(o.get_mut(&key).unwrap(), r)
                }
            }
            _ => {}
        }
        return;
    }
    *v = any_json(r, 2);
}
pub fn mutated(dir: &Path, r: &mut Rng) -> Prog {
    let mut p = match r.below(8) {
        0 => undefined(dir, r),
        1 => warned(dir, r),
        _ => valid(dir, r),
    };
    let donor = String::from_utf8_lossy(&p.files[p.files.len() - 1].1).into_owned();
    let n = p.files.len();
    let hit = if r.chance(60) { vec![0] } else { vec![r.below(n)] };
    for k in hit {
        let t = String::from_utf8_lossy(&p.files[k].1).into_owned();
        if p.files[k].0.ends_with(".avdl") {
            p.files[k].1 = if r.chance(12) { soup(r).into_bytes() } else { mutate(&t, &donor, r) };
        } else {
            p.files[k].1 = match r.below(4) {
                0 => mutate(&t, &donor, r),
                1 => any_json(r, 5).to_string().into_bytes(),
                _ => {
                    let mut v: serde_json::Value = serde_json::from_str(&t).unwrap_or(json!(null));
                    for _ in 0..r.range(1, 4) {
                        mutate_json(&mut v, r);
                    }
                    v.to_string().into_bytes()
                }
            };
        }
    }
    p.kind = "mutated";
    p
}
/// A program of any kind, not yet written.
pub fn any(dir: &Path, r: &mut Rng) -> Prog {
    match r.below(10) {
        0..=2 => valid(dir, r),
        3 | 4 => match m_neg::planted_in(dir.to_path_buf(), 20, r) {
            Some((_, b, _)) => of(b, "one mistake"),
            None => valid(dir, r),
        },
        5 => undefined(dir, r),
        6 => defaults(dir, r),
        7 | 8 => warned(dir, r),
        _ => mutated(dir, r),
    }
}
