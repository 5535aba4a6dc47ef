//! C17: known conditions that deserve a warning are planted in valid programs;
//! the warnings delivered must be exactly those, each on its place.
use crate::ast::*;
use crate::gen_::{self, Cfg};
use crate::m_meta::first_diff;
use crate::m_model::*;
use crate::m_neg::upto_sub;
use crate::obs::{self, Diag, In, Out};
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Value, json};
use std::ops::Range;

/// Byte positions at which a token starts, with the token's first character,
/// found by a scanner of its own.
/// characters that are in no token but strings and comments
const NO_TOKEN: &str = "#%!'\\&|~^";
pub fn tokens(s: &str) -> Vec<(usize, String)> {
    let c: Vec<(usize, char)> = s.char_indices().collect();
    let mut v = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).map(|x| x.1).unwrap_or('\0');
    while i < c.len() {
        let ch = at(i);
        if ch == '\u{1a}' {
            break;
        }
        if ch.is_whitespace() || NO_TOKEN.contains(ch) {
            i += 1;
            continue;
        }
        if ch == '/' && at(i + 1) == '/' {
            while i < c.len() && at(i) != '\n' {
                i += 1;
            }
            continue;
        }
        if ch == '/' && at(i + 1) == '*' {
            let doc = at(i + 2) == '*';
            let st = i;
            i += 2;
            if doc && at(i + 1) == '/' {
                i += 2;
                continue;
            }
            while i < c.len() && !(at(i) == '*' && at(i + 1) == '/' && i > st + 1) {
                i += 1;
            }
            i += 2;
            continue;
        }
        let st = i;
        if ch == '"' {
            i += 1;
            while i < c.len() && at(i) != '"' && !"\n\r\t\u{8}\u{c}".contains(at(i)) {
                if at(i) == '\\' {
                    i += 1;
                    if !"btnfr\"'\\u01234567".contains(at(i)) {
                        break;
                    }
                }
                i += 1;
            }
            if at(i) != '"' {
                // not a string: the lexer drops what it has read
                i += 1;
                continue;
            }
            i += 1;
        } else if "{}()<>,;:=?[]@".contains(ch) {
            i += 1;
        } else {
            let mut tick = false;
            while i < c.len() && (tick || !(at(i).is_whitespace() || "{}()<>,;:=?[]@\"/\u{1a}#%!'\\&|~^".contains(at(i)))) {
                if at(i) == '`' {
                    // an unpaired one is dropped by the lexer
                    if !tick && !c[i + 1..].iter().find(|x| !x.1.is_alphanumeric() && !"_-".contains(x.1)).is_some_and(|x| x.1 == '`') {
                        break;
                    }
                    tick = !tick;
                }
                i += 1;
            }
            if i == st {
                i += 1;
                if ch == '`' {
                    while i < c.len() && (at(i).is_alphanumeric() || "_-".contains(at(i))) {
                        i += 1;
                    }
                    i += 1;
                    continue;
                }
            }
        }
        let end = if i < c.len() { c[i].0 } else { s.len() };
        v.push((c[st].0, s[c[st].0..end].to_string()));
    }
    v
}
#[derive(Clone, Debug)]
struct Cond {
    file: usize,
    /// byte range of the construct, in the final text
    at: Range<usize>,
    /// 0 unrecognised character, 1 stray doc comment, 2 annotations and aliases
    group: u8,
    what: &'static str,
    /// text the warning must contain
    say: Option<String>,
}
fn stray_doc(r: &mut Rng) -> String {
    r.pick(&["/** zz stray */", "/** zz\n * several\n * lines */", "/** \u{e9}\u{4f60}\u{1F600} zz */", "/***/", "/** zz ; } record R { int a; } */", "/**zz*/", "/** \" */"]).to_string()
}
fn expect(ctx: &mut Ctx, what: &str, warns: &[Diag], conds: &[Cond], b: &Built, texts: &[(String, String)]) {
    let mut taken = vec![false; warns.len()];
    let path = |i: usize| b.dir.join(&b.files[i].0).canonicalize().ok();
    let file_of = |d: &Diag| -> Option<usize> {
        let n = d.source.as_ref()?;
        let p = std::path::Path::new(n).canonicalize().ok()?;
        (0..b.files.len()).find(|i| path(*i).as_ref() == Some(&p))
    };
    let mut hit: Vec<usize> = vec![];
    for c in conds {
        let k = (0..warns.len()).find(|k| {
            let w = &warns[*k];
            !taken[*k]
                && file_of(w) == Some(c.file)
                && w.labels.len() == 1
                && w.labels[0].off < c.at.end
                && w.labels[0].off + w.labels[0].len > c.at.start
                && c.say.as_ref().is_none_or(|s| w.text().contains(s.as_str()))
        });
        match k {
            Some(k) => {
                taken[k] = true;
                hit.push(k);
                let l = &warns[k].labels[0];
                if l.off < c.at.start || l.off + l.len > c.at.end {
                    ctx.fail(&format!("imprecise-{}", c.what), format!("{what}: the warning about {} at {:?} is labelled {}..{}", c.what, c.at, l.off, l.off + l.len), texts);
                }
                let (text, at) = (upto_sub(&texts[c.file].1), c.at.start);
                if warns[k].whole.as_deref() != Some(text) {
                    ctx.fail("foreign-source", format!("{what}: the source of the warning about {} is not the text of the file", c.what), texts);
                }
                // "Line 3, char 7" or "line 3:6"
                let line = 1 + text[..at].matches('\n').count();
                let col = text[..at].rsplit('\n').next().unwrap().chars().count();
                let m = &warns[k].text();
                if c.group == 1 && !m.contains(&format!("Line {line}, char {}:", col + 1)) {
                    ctx.fail("line", format!("{what}: a stray doc comment in line {line}, column {} is described as {m}", col + 1), texts);
                }
                if c.group == 0 && !m.contains(&format!("line {line}:")) {
                    ctx.fail("line", format!("{what}: an unrecognised character in line {line}, column {col} is described as {m}"), texts);
                }
                // an imported file is named in the text as well
                let base = b.files[c.file].0.rsplit('/').next().unwrap();
                if c.file != 0 && !m.contains(base) {
                    ctx.fail("unnamed-file", format!("{what}: a warning about {base} does not name it: {m}"), texts);
                }
            }
            None => {
                let near: Vec<String> = warns.iter().map(|w| format!("{} [{:?} {:?}]", w.text(), w.source, w.labels)).collect();
                ctx.fail(&format!("missing-{}", c.what), format!("{what}: no warning about {} in {} at {:?} ({:?}); there are {near:?}", c.what, b.files[c.file].0, c.at, c.say), texts);
            }
        }
    }
    for (k, t) in taken.iter().enumerate() {
        if !t {
            ctx.fail("unfounded", format!("{what}: a warning no condition explains: {} [{:?} {:?}]", warns[k].text(), warns[k].source, warns[k].labels), texts);
        }
    }
    // order within each file and group
    if hit.len() == conds.len() {
        let mut o: Vec<(usize, usize)> = hit.iter().enumerate().map(|(c, k)| (*k, c)).collect();
        o.sort();
        for f in 0..b.files.len() {
            for g in 0..3 {
                let seq: Vec<usize> = o.iter().map(|x| &conds[x.1]).filter(|c| c.file == f && c.group == g).map(|c| c.at.start).collect();
                if seq.windows(2).any(|w| w[0] > w[1]) {
                    ctx.fail("order", format!("{what}: warnings about {} are not in source order: {seq:?}", b.files[f].0), texts);
                }
            }
        }
    }
    for d in warns {
        if let Some(x) = obs::malformed(d) {
            ctx.fail("malformed", format!("{what}: a warning is malformed: {x}"), texts);
        }
    }
}
pub fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let cfg = Cfg {
        types: (1, 6),
        idl_imports: (0, r.below(4)),
        json_imports: (0, r.below(2)),
        mode: (60, 25, 15),
        p_doc: [10, 40][r.below(2)],
        ..Cfg::small()
    };
    let mut w = gen_::world(&cfg, &mut r);
    // conditions made of declarations, with marks
    let mut say: Vec<(&'static str, Option<String>)> = vec![];
    let idls: Vec<usize> = (0..w.files.len()).filter(|i| matches!(w.files[*i].body, FileBody::Idl(_))).collect();
    for n in 0..r.below(5) {
        let f = *r.pick(&idls);
        let FileBody::Idl(x) = &mut w.files[f].body else { unreachable!() };
        let mut mk = |what: &'static str, s: Option<String>, t: &str| -> String {
            say.push((what, s));
            crate::render::marked(60 + say.len() - 1, t)
        };
        let un = ["union { null, string }", "union { int, string }", "union{string}", "union { null, int, array<long> }"];
        let (pre, t) = match r.below(10) {
            0 => {
                let a = mk("a non-standard alias", Some(format!("\"9zz-{n}\"")), &format!("@aliases([\"9zz-{n}\"])"));
                let kind = *r.pick(&["enum ZzW { A, B }", "fixed ZzW(3);", "record ZzW { int a; }", "error ZzW { }"]);
                (a, kind.replace("ZzW", &format!("ZzW{n}")))
            }
            1 => {
                // two bad ones and a good one in one annotation
                let t = format!("@aliases([\"zz-{n}a\", \"zz.ok\", \"{n}zz.b\"])");
                let a = mk("a non-standard alias", Some(format!("\"zz-{n}a\"")), &t);
                let a = mk("a non-standard alias", Some(format!("\"{n}zz.b\"")), &a);
                (String::new(), format!("record ZzW{n} {{ int {a} a; }}"))
            }
            2 => {
                let a = mk("a non-standard alias", Some(format!("\"z z{n}\"")), &format!("@aliases([\"z z{n}\"])"));
                let c = mk("a non-standard alias", Some(format!("\"\u{e9}..{n}\"")), &format!("@aliases([\"\u{e9}..{n}\"])"));
                (a, format!("record ZzW{n} {{ string b, {c} c = \"\"; }}"))
            }
            3 | 4 => {
                let u = *r.pick(&un);
                let t = mk("annotations of a union", Some("zzU".into()), &format!("@zzU(\"v\") {u}"));
                (String::new(), format!("record ZzW{n} {{ {t} a; }}"))
            }
            5 => {
                // one union shared by two variables: one place, one warning
                let t = mk("annotations of a union", Some("zzU".into()), &format!("@zzU(1) @zzV([]) {}", r.pick(&un)));
                (String::new(), format!("record ZzW{n} {{ int x; {t} a, b; int y; }}"))
            }
            6 => {
                let t = mk("annotations of a union", Some("zzU".into()), &format!("@zzU({{\"a\":1}}) {}", un[1]));
                (String::new(), format!("record ZzW{n} {{ array<{t}> a; }}"))
            }
            7 => {
                let t = mk("annotations of a union", Some("zzU".into()), &format!("@zzU(null) {}", un[0]));
                (String::new(), format!("record ZzW{n} {{ union {{ int, map<array<{t}>> }} a; }}"))
            }
            8 if matches!(x.kind, Kind::Proto { .. }) => {
                let t = mk("annotations of a union", Some("zzU".into()), &format!("@zzU(true) {}", r.pick(&un)));
                if r.chance(50) { (String::new(), format!("void zzw{n}(int a, {t} b);")) } else { (String::new(), format!("array<{t}> zzw{n}();")) }
            }
            _ => {
                // nothing to warn about: T?, standard aliases
                (String::new(), format!("@aliases([\"Zz_1\", \"a.b.C\", \"_z9\"]) record ZzW{n} {{ @zzU(\"v\") string? a; @zzU(1) array<union {{ int, null }}> b; }}"))
            }
        };
        let at = r.below(x.items.len() + 1);
        x.items.insert(at, Item::Raw(format!("{pre}{}{t}", if pre.is_empty() { "" } else { " " })));
    }
    let b = build(ctx, &w, &mut style_of);
    // the same program without the conditions
    let clean = |t: &str| -> String {
        let mut s = t.to_string();
        for (f, _) in [("@zzU(\"v\") union", ""), ("@zzU(1) @zzV([]) union", ""), ("@zzU({\"a\":1}) union", ""), ("@zzU(null) union", ""), ("@zzU(true) union", "")] {
            s = s.replace(f, "union");
        }
        for n in 0..5 {
            for (f, t) in aliases(n) {
                s = s.replace(&format!("\"{f}\""), &format!("\"{t}\""));
            }
        }
        s
    };
    let put = |k: usize, t: &str| std::fs::write(b.dir.join(&b.files[k].0), t).unwrap();
    for k in &idls {
        put(*k, &clean(&b.files[*k].1));
    }
    let named = matches!(w.main().kind, Kind::Named);
    let ext = named || ctx.rng.chance(30);
    let run = |e: bool| if e { obs::extract_path(&b.main, &b.dirs) } else { obs::convert_path(&b.main, &b.dirs) };
    let base = run(ext);
    ctx.eval();
    let bad = |o: &Out| !o.ok();
    if bad(&base) {
        ctx.fail("rejected", format!("a valid program was {}", base.describe()), &b.files);
        return;
    }
    expect(ctx, "without any condition", base.warns(), &[], &b, &b.files);
    // now with the conditions
    let mut conds: Vec<Cond> = vec![];
    let mut texts = b.files.clone();
    for k in &idls {
        let t = &b.files[*k].1;
        let toks = tokens(t);
        let mut ins: Vec<(usize, String, u8)> = vec![];
        for _ in 0..r.below(4) {
            if toks.len() < 2 {
                break;
            }
            if r.chance(55) {
                let cand: Vec<&(usize, String)> = toks.iter().filter(|x| ["}", ";", ",", "=", "(", ")", "<", ">", "{", "]", ":", "?"].contains(&x.1.as_str())).collect();
                if let Some((p, _)) = cand.get(r.below(cand.len().max(1))) {
                    ins.push((*p, stray_doc(&mut r), 1));
                }
            } else {
                let (p, _) = r.pick(&toks);
                let c = *r.pick(&["#", "%", "^", "!", "~", "&", "|", "\u{20ac}", "\u{1F600}", "\u{feff}", "\u{ab}"]);
                ins.push((*p, c.to_string(), 0));
            }
        }
        if r.chance(15) {
            // at the very end of the text
            ins.push((upto_sub(t).len(), if r.chance(50) { stray_doc(&mut r) } else { "#".into() }, 9));
        }
        if t.ends_with('}') || !upto_sub(t).ends_with('\n') {
            // the end may lie inside a line comment
            ins.retain(|x| x.2 != 9);
        }
        ins.sort_by_key(|x| x.0);
        // shift the declared marks and place the insertions
        let mut out = String::new();
        let mut last = 0;
        let mut shifts: Vec<(usize, usize)> = vec![]; // (old offset, length inserted there)
        for (p, s, g) in &ins {
            out.push_str(&t[last..*p]);
            last = *p;
            let pad = " ";
            let st = out.len() + 1;
            out.push_str(pad);
            out.push_str(s);
            out.push_str(pad);
            let g = if *g == 9 { s.starts_with('/') as u8 } else { *g };
            conds.push(Cond { file: *k, at: st..st + s.len(), group: g, what: if g == 1 { "a stray doc comment" } else { "an unrecognised character" }, say: None });
            shifts.push((*p, s.len() + 2));
        }
        out.push_str(&t[last..]);
        for (m, rg) in &b.marks[*k] {
            if *m < 60 {
                continue;
            }
            let sh = |o: usize, incl: bool| o + shifts.iter().filter(|x| if incl { x.0 <= o } else { x.0 < o }).map(|x| x.1).sum::<usize>();
            let (what, s) = &say[*m - 60];
            conds.push(Cond { file: *k, at: sh(rg.start, true)..sh(rg.end, false), group: 2, what, say: s.clone() });
        }
        texts[*k].1 = out;
    }
    for c in &conds {
        ctx.count(&format!("planted: {}", c.what), 1);
        ctx.count(if c.file == 0 { "conditions in the main file" } else { "conditions in an imported file" }, 1);
    }
    conds.sort_by_key(|c| (c.file, c.at.start));
    for k in &idls {
        put(*k, &texts[*k].1);
    }
    ctx.shape(&format!("{texts:?}"));
    // one builder for everything: nothing may leak from one call into the next
    let mut idl = avdl::Idl::new();
    let mut sch = avdl::Idl2Schemata::new();
    for d in &b.dirs {
        idl.import_dir(d);
        sch.import_dir(d);
    }
    let mut go = |e: bool| -> (Out, usize) {
        let i = In::Path(&b.main);
        if e {
            let o = obs::run_ext(&mut sch, &i);
            (o, sch.drain_warnings().len())
        } else {
            let o = obs::run_idl(&mut idl, &i);
            (o, idl.drain_warnings().len())
        }
    };
    let (got, left) = go(ext);
    ctx.eval();
    match (&got, &base) {
        (Out::Panic(p), _) => ctx.fail("panic", p.clone(), &texts),
        (g, _) if !g.ok() => ctx.fail("fatal", format!("a program that only deserves warnings was {}", g.describe()), &texts),
        _ => {
            expect(ctx, "compiled", got.warns(), &conds, &b, &texts);
            let (x, y) = (back(&result(&got)), back(&result(&base)));
            if x != y {
                ctx.fail("result", format!("the conditions that are warned about change the result: {}", first_diff(&x, &y, "$")), &texts);
            }
            ctx.count("results compared", 1);
        }
    }
    if left != 0 {
        ctx.fail("twice", format!("{left} warnings are delivered again by drain_warnings after a success"), &texts);
    }
    // the same with an error at the end
    let main = upto_sub(&texts[0].1).to_string();
    let (cut, tail) = if matches!(w.main().kind, Kind::Proto { .. }) { tokens(&main).iter().rev().find(|x| x.1 == "}").map(|x| (x.0, main[x.0..].to_string())).unwrap() } else { (main.len(), String::new()) };
    let head = main[..cut].to_string();
    // a doc comment would belong to the declaration that follows it now
    let last = tokens(&head).iter().rev().find(|x| !x.1.chars().all(|c| "#%^!~&|\u{20ac}\u{1F600}\u{feff}\u{ab}".contains(c))).map(|x| x.0).unwrap_or(0);
    if conds.iter().any(|c| c.file == 0 && c.group == 1 && c.at.start > last) {
        return;
    }
    let line_comment = tail.is_empty() && !head.ends_with('\n');
    let tail = if line_comment { format!("\n{tail}") } else { tail };
    let err = *r.pick(&["record ZzE { ZzUndefined17 a; } ", "record ZzE { } record ZzE { } ", "import idl \"zz-missing.avdl\"; ", "record ZzEr { int a; } record ZzE { ZzEr a = 7; } ", ""]);
    if err.is_empty() && !named {
        return;
    }
    let mut failing = texts.clone();
    failing[0].1 = format!("{head}{err}{tail}");
    // conditions behind the insertion move with it
    let mut fconds = conds.clone();
    for c in fconds.iter_mut().filter(|c| c.file == 0 && c.at.start >= cut) {
        let by = err.len() + line_comment as usize;
        c.at = c.at.start + by..c.at.end + by;
    }
    if line_comment && conds.iter().any(|c| c.file == 0 && c.at.end > cut) {
        return;
    }
    put(0, &failing[0].1);
    let e = if err.is_empty() { false } else { ext };
    let (got, left) = go(e);
    ctx.eval();
    match &got {
        Out::Panic(p) => ctx.fail("panic", p.clone(), &failing),
        Out::Err { warns, .. } => {
            expect(ctx, "failed", warns, &fconds, &b, &failing);
            ctx.count("failures with warnings compared", 1);
        }
        o => ctx.fail("accepted", format!("`{err}` was {}", o.describe()), &failing),
    }
    if left != 0 {
        ctx.fail("twice", format!("{left} warnings are delivered again by a second drain_warnings"), &failing);
    }
    // the builder forgets them
    put(0, &clean(&b.files[0].1));
    for k in &idls {
        put(*k, &clean(&b.files[*k].1));
    }
    let (got, left) = go(ext);
    if !got.warns().is_empty() || left != 0 || !got.ok() {
        ctx.fail("leak", format!("a clean program compiled after a failure has {} warnings, {left} left behind, and is {}", got.warns().len(), got.describe()), &b.files);
    }
    if texts.iter().map(|f| f.1.len()).sum::<usize>() < 900 && !conds.is_empty() {
        ctx.sample(|| json!({"files": texts, "conditions": conds.len()}));
    }
}
fn aliases(n: usize) -> [(String, String); 5] {
    [
        (format!("9zz-{n}"), format!("zza{n}")),
        (format!("zz-{n}a"), format!("zzb{n}")),
        (format!("{n}zz.b"), format!("zzc{n}")),
        (format!("z z{n}"), format!("zzd{n}")),
        (format!("\u{e9}..{n}"), format!("zze{n}")),
    ]
}
fn result(o: &Out) -> Value {
    match o {
        Out::Ok { json, .. } => json.clone(),
        Out::Schemata { schemas, .. } => json!(schemas),
        _ => Value::Null,
    }
}
/// Give the aliases their standard names.
fn back(v: &Value) -> Value {
    let mut s = v.to_string();
    for n in 0..5 {
        for (f, t) in aliases(n) {
            s = s.replace(&format!("\"{f}\""), &format!("\"{t}\""));
        }
    }
    serde_json::from_str(&s).unwrap()
}
