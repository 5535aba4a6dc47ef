//! C15: the command line program as a process: what it writes where, what it
//! says and how it ends, compared with what the library returns, also when
//! writing fails.
use crate::obs::{self, Diag, In, Out};
use crate::rng::Rng;
use crate::run::*;
use crate::work::{self, Prog};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// Everything below a directory: contents of files, None for directories.
fn snapshot(d: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(d: &Path, pre: &str, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_dir() {
                m.insert(n.clone(), None);
                go(&e.path(), &format!("{n}/"), m);
            } else if t.is_symlink() {
                m.insert(n, Some(format!("-> {:?}", std::fs::read_link(e.path()).ok()).into_bytes()));
            } else {
                m.insert(n, Some(std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    let mut m = BTreeMap::new();
    go(d, "", &mut m);
    m
}
fn changes(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>) -> Vec<String> {
    let mut v = vec![];
    for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
        if a.get(k) != b.get(k) {
            let s = |x: Option<&Option<Vec<u8>>>| match x {
                None => "absent".to_string(),
                Some(None) => "a directory".into(),
                Some(Some(b)) => format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(300)])),
            };
            v.push(format!("{k}: expected {}, found {}", s(a.get(k)), s(b.get(k))));
        }
    }
    v
}
fn plain(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && !('\u{2500}'..='\u{257f}').contains(c) && *c != '\u{25b6}' && !c.is_control()).collect()
}
/// What of a diagnostic must be legible.
fn legible(d: &Diag) -> Vec<String> {
    let mut v = vec![d.chain.concat()];
    v.extend(d.help.clone());
    // a blank source has no line to put a label under
    if d.whole.as_ref().is_none_or(|w| !w.trim().is_empty()) {
        v.extend(d.labels.iter().filter_map(|l| l.text.clone()));
    }
    if !d.labels.is_empty() {
        v.extend(d.source.clone());
    }
    v.extend(d.related.iter().flat_map(legible));
    v
}
struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
fn run(bin: &Path, dir: &Path, args: &[String], stdin: Option<&[u8]>, how: &str) -> Ran {
    let mut c = if how == "small-files" || how == "tiny-files" {
        // no file may grow beyond some blocks of 1024 bytes
        let mut c = Command::new("bash");
        c.args(["-c", &format!("trap '' XFSZ; ulimit -f {}; exec \"$0\" \"$@\"", if how == "tiny-files" { 0 } else { 1 })]).arg(bin);
        c
    } else {
        Command::new(bin)
    };
    c.args(args).current_dir(dir).stderr(Stdio::piped()).env("NO_COLOR", "1").env("LANG", "C.UTF-8").env("LC_ALL", "C.UTF-8");
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    match how {
        "full-stdout" => c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
        _ => c.stdout(Stdio::piped()),
    };
    let mut p = c.spawn().expect("spawn the command line program");
    let feeder = stdin.map(|s| {
        let (mut i, s) = (p.stdin.take().unwrap(), s.to_vec());
        std::thread::spawn(move || {
            let _ = i.write_all(&s);
        })
    });
    let o = p.wait_with_output().unwrap();
    if let Some(f) = feeder {
        let _ = f.join();
    }
    Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn pretty(v: &Value) -> String {
    serde_json::to_string_pretty(v).unwrap()
}
/// Does the text on standard error tell all there is to tell?
fn told(ctx: &mut Ctx, what: &str, ds: &[&Diag], r: &Ran, files: &[(String, String)]) {
    let e = plain(&r.err);
    for d in ds {
        for l in legible(d) {
            let l = plain(&l);
            ctx.count("diagnostic texts found on standard error", 1);
            if !e.contains(&l) {
                ctx.fail(&format!("untold-{what}"), format!("{what} text `{l}` is not on standard error:\n{}", r.err.chars().take(2000).collect::<String>()), files);
            }
        }
    }
    // each as often as it was given
    let msgs: Vec<String> = ds.iter().map(|d| plain(&d.chain.concat())).collect();
    for m in &msgs {
        if msgs.iter().any(|n| n != m && n.contains(m.as_str())) || ds.iter().any(|d| d.help.iter().any(|t| plain(t).contains(m.as_str()))) {
            continue;
        }
        let want = msgs.iter().filter(|n| *n == m).count();
        let got = e.matches(m.as_str()).count();
        if got < want || (what == "warning" && got > want) {
            ctx.fail(&format!("count-{what}"), format!("{what} `{m}` appears {got} times on standard error instead of {want}:\n{}", r.err.chars().take(2000).collect::<String>()), files);
        }
    }
}
pub fn case(ctx: &mut Ctx) {
    let bin = PathBuf::from(std::env::var_os("AVDL_BIN").expect("AVDL_BIN"));
    let mut r = ctx.rng.fork();
    let dir = ctx.fresh();
    let mut p: Prog = if r.chance(45) { work::valid(&dir, &mut r) } else { work::any(&dir, &mut r) };
    if r.chance(3) {
        p.files[0].1.insert(0, 0xff);
    }
    p.write();
    let files = p.texts();
    ctx.keep(&files);
    std::env::set_current_dir(&dir).unwrap();
    ctx.shape(&format!("{:?}", p.files));
    ctx.count(&format!("programs: {}", p.kind), 1);
    let dirs: Vec<PathBuf> = p.dirs.iter().map(|d| if r.chance(50) { d.strip_prefix(&dir).map(|p| p.to_path_buf()).unwrap_or(d.clone()) } else { d.clone() }).collect();
    for _ in 0..2 {
        if r.chance(60) {
            idl(ctx, &bin, &dir, &p, &dirs, &files, &mut r);
        } else {
            schemata(ctx, &bin, &dir, &p, &dirs, &files, &mut r);
        }
    }
    std::env::set_current_dir(&ctx.dir).unwrap();
    if files.iter().map(|f| f.1.len()).sum::<usize>() < 500 {
        ctx.sample(|| json!({"kind": p.kind, "files": files}));
    }
}
fn dir_args(dirs: &[PathBuf], r: &mut Rng) -> Vec<String> {
    dirs.iter()
        .flat_map(|d| {
            let d = d.display().to_string();
            if r.chance(50) { vec![format!("--import-dir={d}")] } else { vec!["--import-dir".to_string(), d] }
        })
        .collect()
}
fn idl(ctx: &mut Ctx, bin: &Path, dir: &Path, p: &Prog, dirs: &[PathBuf], files: &[(String, String)], r: &mut Rng) {
    let mut b = avdl::Idl::new();
    for d in dirs {
        b.import_dir(d);
    }
    let text = p.main_text();
    let stdin = r.chance(40);
    let input = match r.below(3) {
        0 => p.files[0].0.clone(),
        1 => format!("./{}", p.files[0].0),
        _ => p.main.display().to_string(),
    };
    let want = match (stdin, text) {
        (true, Some(t)) => Some(obs::run_idl(&mut b, &In::Str(obs::leak(t), "-"))),
        (true, None) => None, // not UTF-8: an error about reading
        (false, _) => Some(obs::run_idl(&mut b, &In::Path(Path::new(&input)))),
    };
    if matches!(want, Some(Out::Panic(_))) {
        return;
    }
    let (json, warns): (Option<&Value>, &[Diag]) = match &want {
        Some(o) => (o.json(), o.warns()),
        None => (None, &[]),
    };
    // where to
    let kinds = ["stdout", "stdout", "dash", "new", "existing", "existing", "missing-dir", "directory", "full-stdout", "dev-full", "under-file", "long-name", "tiny-files", "small-files", "loop"];
    let to = *r.pick(&kinds);
    let mut args = vec!["idl".to_string()];
    let da = dir_args(dirs, r);
    let mut pos = vec![];
    let outname = format!("out{}.json", r.below(1000));
    let stem = dir.join("out-dir");
    let _ = std::fs::remove_dir_all(&stem);
    let output: Option<String> = match to {
        "stdout" | "full-stdout" => None,
        "dash" => Some("-".into()),
        "new" => Some(outname.clone()),
        "existing" | "tiny-files" | "small-files" => {
            std::fs::write(dir.join(&outname), "what was here before\n".repeat(200)).unwrap();
            Some(outname.clone())
        }
        "missing-dir" => Some("no/such/dir/x.json".into()),
        "directory" => {
            std::fs::create_dir_all(&stem).unwrap();
            Some("out-dir".into())
        }
        "dev-full" => Some("/dev/full".into()),
        "under-file" => Some(format!("{}/x.json", p.files[0].0)),
        "loop" => {
            let _ = std::os::unix::fs::symlink("zz-loop", dir.join("zz-loop"));
            Some("zz-loop".into())
        }
        _ => Some("n".repeat(300)),
    };
    let implicit = stdin && output.is_none() && r.chance(50);
    if !implicit {
        pos.push(if stdin { "-".to_string() } else { input.clone() });
    }
    pos.extend(output.clone());
    if r.chance(50) {
        args.extend(da);
        args.extend(pos);
    } else {
        args.extend(pos);
        args.extend(da);
    }
    let doc = json.map(pretty);
    let bad_target = match to {
        "missing-dir" | "directory" | "full-stdout" | "dev-full" | "under-file" | "long-name" | "loop" | "tiny-files" => true,
        "small-files" => doc.as_ref().is_some_and(|d| d.len() + 1 > 1024),
        _ => false,
    };
    let before = snapshot(dir);
    let res = run(bin, dir, &args, if stdin { Some(&p.files[0].1) } else { None }, to);
    let mut after = snapshot(dir);
    ctx.eval();
    ctx.count(&format!("idl to {to}"), 1);
    ctx.count(if stdin { "idl from standard input" } else { "idl from a file" }, 1);
    let tag = format!("`avdl {}`{}", args.join(" "), if stdin { " (from standard input)" } else { "" });
    let mut expect = before.clone();
    let good = doc.is_some() && !bad_target;
    if let (Some(d), true) = (&doc, good) {
        if matches!(to, "new" | "existing" | "small-files") {
            expect.insert(outname.clone(), Some(format!("{d}\n").into_bytes()));
        }
    }
    if doc.is_some() && bad_target && matches!(to, "tiny-files" | "small-files") {
        // a failed write may leave part of the document
        if let Some(Some(f)) = after.get(&outname).cloned() {
            let whole = format!("{}\n", doc.as_ref().unwrap()).into_bytes();
            if whole.starts_with(&f) || before.get(&outname) == Some(&Some(f)) {
                after.insert(outname.clone(), before[&outname].clone());
            }
        }
    }
    let to_stdout = matches!(to, "stdout" | "dash");
    let want_out = if good && to_stdout { doc.clone().unwrap() } else { String::new() };
    if good {
        ctx.count("successful runs", 1);
    } else {
        ctx.count(if doc.is_some() { "failed writes" } else { "failed compilations" }, 1);
    }
    verdicts(ctx, &tag, &res, good, want_out.as_bytes(), &changes(&expect, &after), warns, files);
    if let Some(Out::Err { err, .. }) = &want {
        // a program read from standard input goes by another name when no input is named
        let mut err = (**err).clone();
        if implicit {
            rename(&mut err);
        }
        told(ctx, "error", &[&err], &res, files);
    }
    let mut w: Vec<Diag> = warns.to_vec();
    if implicit {
        w.iter_mut().for_each(rename);
    }
    told(ctx, "warning", &w.iter().collect::<Vec<_>>(), &res, files);
}
fn rename(d: &mut Diag) {
    if d.source.as_deref() == Some("-") {
        d.source = Some("<stdin>".into());
    }
    for c in &mut d.chain {
        *c = c.replace("`-`", "`<stdin>`");
    }
    d.related.iter_mut().for_each(rename);
}
fn verdicts(ctx: &mut Ctx, tag: &str, res: &Ran, good: bool, want_out: &[u8], changed: &[String], warns: &[Diag], files: &[(String, String)]) {
    ctx.count("warnings expected", warns.len() as u64);
    let err: String = res.err.chars().take(1500).collect();
    if good != (res.code == Some(0)) {
        ctx.fail(if good { "failed" } else { "false-success" }, format!("{tag} ended with {:?}, expected {}; standard error:\n{err}", res.code, if good { "success" } else { "failure" }), files);
    }
    if res.code.is_none() || res.code == Some(101) {
        ctx.fail("died", format!("{tag} ended with {:?}:\n{err}", res.code), files);
    }
    if !good && res.err.trim().is_empty() {
        ctx.fail("silent", format!("{tag} failed without a word"), files);
    }
    if res.out != want_out {
        ctx.fail("stdout", format!("{tag}: standard output holds\n{:?}\nexpected\n{:?}", String::from_utf8_lossy(&res.out[..res.out.len().min(600)]), String::from_utf8_lossy(&want_out[..want_out.len().min(600)])), files);
    }
    if !changed.is_empty() {
        ctx.fail(if good { "files" } else { "files-after-failure" }, format!("{tag} (ended with {:?}): {}", res.code, changed.join("\n")), files);
    }
    if good && warns.is_empty() && !res.err.is_empty() {
        ctx.fail("noise", format!("{tag} succeeded without warnings but wrote to standard error:\n{err}"), files);
    }
}
fn schemata(ctx: &mut Ctx, bin: &Path, dir: &Path, p: &Prog, dirs: &[PathBuf], files: &[(String, String)], r: &mut Rng) {
    let mut b = avdl::Idl2Schemata::new();
    for d in dirs {
        b.import_dir(d);
    }
    let whole = r.chance(12);
    let input = match (whole, r.below(3)) {
        (true, 0) => dir.display().to_string(),
        (true, _) => ".".to_string(),
        (_, 0) => p.files[0].0.clone(),
        (_, 1) => format!("./{}", p.files[0].0),
        _ => p.main.display().to_string(),
    };
    let want = obs::run_ext(&mut b, &In::Path(Path::new(&input)));
    let (schemas, warns): (Option<Vec<(String, Value)>>, &[Diag]) = match &want {
        Out::Panic(_) => return,
        Out::Schemata { schemas, warns } => (Some(schemas.clone()), warns),
        o => (None, o.warns()),
    };
    let kinds = ["new", "new", "deep", "existing", "existing", "none", "dot", "file", "under-file", "entry-directory", "entry-full", "small-files"];
    let mut to = *r.pick(&kinds);
    let names: Vec<String> = schemas.iter().flatten().map(|s| s.0.clone()).collect();
    if names.is_empty() && matches!(to, "entry-directory" | "entry-full") {
        to = "existing";
    }
    // into a directory of its own, so that types cannot overwrite the sources
    let od = format!("od{}", r.below(1000));
    let abs = dir.join(&od);
    let _ = std::fs::remove_dir_all(&abs);
    let mut cwd = dir.to_path_buf();
    let mut input_arg = input.clone();
    let mut dirs: Vec<PathBuf> = dirs.to_vec();
    let out: Option<String> = match to {
        "new" => Some(od.clone()),
        "deep" => Some(format!("{od}/a/b")),
        "none" | "dot" => {
            std::fs::create_dir_all(&abs).unwrap();
            cwd = abs.clone();
            input_arg = if whole { dir.display().to_string() } else { p.main.display().to_string() };
            dirs = dirs.iter().map(|d| dir.join(d)).collect();
            if to == "none" { None } else { Some("./".into()) }
        }
        "file" => Some(p.files[0].0.clone()),
        "under-file" => Some(format!("{}/x", p.files[0].0)),
        _ => {
            std::fs::create_dir_all(abs.join("sub")).unwrap();
            std::fs::write(abs.join("Other.avsc"), "other").unwrap();
            std::fs::write(abs.join("zz-note.txt"), "note").unwrap();
            for n in &names {
                if r.chance(40) {
                    std::fs::write(abs.join(format!("{n}.avsc")), "old".repeat(4000)).unwrap();
                }
            }
            if to.starts_with("entry") {
                let f = abs.join(format!("{}.avsc", r.pick(&names)));
                let _ = std::fs::remove_file(&f);
                if to == "entry-full" {
                    std::os::unix::fs::symlink("/dev/full", &f).unwrap();
                } else {
                    std::fs::create_dir(&f).unwrap();
                }
            }
            Some(if r.chance(50) { od.clone() } else { abs.display().to_string() })
        }
    };
    // the same call from the same place, for names in diagnostics
    let moved = cwd != dir;
    let want = if moved {
        std::env::set_current_dir(&cwd).unwrap();
        let mut b = avdl::Idl2Schemata::new();
        for d in &dirs {
            b.import_dir(d);
        }
        let w = obs::run_ext(&mut b, &In::Path(Path::new(&input_arg)));
        std::env::set_current_dir(dir).unwrap();
        w
    } else {
        want.clone()
    };
    let warns: Vec<Diag> = if moved { want.warns().to_vec() } else { warns.to_vec() };
    let mut args = vec!["idl2schemata".to_string()];
    args.extend(dir_args(&dirs, r));
    args.push(input_arg);
    args.extend(out);
    let whole_text = |v: &Value| format!("{}\n", pretty(v));
    let bad_target = match to {
        "file" | "under-file" | "entry-directory" | "entry-full" => true,
        "small-files" => schemas.iter().flatten().any(|s| whole_text(&s.1).len() > 1024),
        _ => false,
    };
    let good = schemas.is_some() && !bad_target;
    let before = snapshot(dir);
    let res = run(bin, &cwd, &args, None, to);
    let mut after = snapshot(dir);
    ctx.eval();
    ctx.count(&format!("idl2schemata to {to}"), 1);
    if whole {
        ctx.count("idl2schemata of a directory", 1);
    }
    if good {
        ctx.count("successful runs", 1);
    } else {
        ctx.count(if schemas.is_some() { "failed writes" } else { "failed compilations" }, 1);
    }
    let mut expect = before.clone();
    let base = match to {
        "deep" => format!("{od}/a/b"),
        _ => od.clone(),
    };
    if let Some(s) = &schemas {
        if good {
            if to == "deep" {
                expect.insert(od.clone(), None);
                expect.insert(format!("{od}/a"), None);
            }
            expect.insert(base.clone(), None);
            for (n, v) in s {
                expect.insert(format!("{base}/{n}.avsc"), Some(whole_text(v).into_bytes()));
            }
        } else {
            // some of the files may be written, or begun, before the failing one
            for (n, v) in s {
                let k = format!("{base}/{n}.avsc");
                let fine = s.iter().filter(|x| x.0 == *n).any(|x| after.get(&k).and_then(|a| a.as_ref()).is_some_and(|a| whole_text(&x.1).as_bytes().starts_with(a)));
                let _ = v;
                if fine {
                    match before.get(&k) {
                        Some(b) => {
                            after.insert(k, b.clone());
                        }
                        None => {
                            after.remove(&k);
                        }
                    }
                }
            }
        }
    }
    let tag = format!("`avdl {}` ({to})", args.join(" "));
    verdicts(ctx, &tag, &res, good, b"", &changes(&expect, &after), &warns, files);
    if let Out::Err { err, .. } = &want {
        told(ctx, "error", &[err], &res, files);
    }
    told(ctx, "warning", &warns.iter().collect::<Vec<_>>(), &res, files);
}
/// Ways of calling the program.
pub fn directed(ctx: &mut Ctx) {
    let bin = PathBuf::from(std::env::var_os("AVDL_BIN").expect("AVDL_BIN"));
    let dir = ctx.fresh();
    std::fs::write(dir.join("a.avdl"), "schema R; record R { int a; }").unwrap();
    let bad: &[&[&str]] = &[
        &[], &["nonsense"], &["--nonsense"], &["idl", "--nonsense", "a.avdl"], &["idl", "--import-dir"], &["idl2schemata"], &["idl2schemata", "--import-dir", "x"], &["idl", "missing.avdl"], &["idl2schemata", "missing.avdl", "out"],
        &["idl", "."], &["idl", "", "x.json"], &["idl2schemata", "", "out"], &["idl", "missing.avdl", "a.avdl"], &["-x"], &["idl", "-q", "a.avdl", "a.avdl"],
    ];
    let before = snapshot(&dir);
    for a in bad {
        let args: Vec<String> = a.iter().map(|s| s.to_string()).collect();
        let r = run(&bin, &dir, &args, None, "");
        ctx.eval();
        ctx.count("calls that must fail", 1);
        verdicts(ctx, &format!("`avdl {}`", args.join(" ")), &r, false, b"", &changes(&before, &snapshot(&dir)), &[], &[]);
    }
    for a in [&["--help"][..], &["-h"], &["--version"], &["-V"], &["idl", "--help"], &["idl2schemata", "-h"]] {
        let args: Vec<String> = a.iter().map(|s| s.to_string()).collect();
        let r = run(&bin, &dir, &args, None, "");
        ctx.eval();
        if r.code != Some(0) || r.out.is_empty() || !r.err.is_empty() || snapshot(&dir) != before {
            ctx.fail("help", format!("`avdl {}` ended with {:?}: {:?} {:?}", args.join(" "), r.code, String::from_utf8_lossy(&r.out), r.err), &[]);
        }
    }
    // a document larger than any buffer, to a full device, and a reader that goes away
    let big = format!("enum E {{ {} }}", (0..40_000).map(|i| format!("SYMBOL_{i}")).collect::<Vec<_>>().join(", "));
    std::fs::write(dir.join("big.avdl"), format!("schema E; {big}")).unwrap();
    let r = run(&bin, &dir, &["idl".into(), "big.avdl".into()], None, "full-stdout");
    ctx.eval();
    if r.code == Some(0) || r.err.is_empty() {
        ctx.fail("false-success", format!("a large document to a full device ended with {:?}", r.code), &[]);
    }
    let r = run(&bin, &dir, &["idl".into(), "big.avdl".into()], None, "");
    let lib = obs::convert_path(&dir.join("big.avdl"), &[]);
    if r.code != Some(0) || lib.json().map(pretty).map(|s| s.into_bytes()) != Some(r.out) {
        ctx.fail("stdout", "a large document on standard output is not the library's".into(), &[]);
    }
    let mut p = Command::new(&bin).args(["idl", "big.avdl"]).current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    drop(p.stdout.take());
    let o = p.wait_with_output().unwrap();
    ctx.eval();
    if o.status.code().is_none() || o.status.code() == Some(101) {
        ctx.fail("died", format!("when the reader went away the program ended with {:?}", o.status), &[]);
    }
}
