//! C12, C13: the same compilation gives the same outcome whenever, wherever and
//! next to whatever it runs. Everything a caller can see is compared, including
//! the rendered diagnostics.
use crate::obs::{self, In, Out};
use crate::rng::Rng;
use crate::run::*;
use crate::work::{self, Prog};
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

/// One call of the library.
#[derive(Clone, Debug)]
pub struct Job {
    pub main: PathBuf,
    pub dirs: Vec<PathBuf>,
    pub ext: bool,
    /// from text, under a name, instead of from the path
    pub text: bool,
}
fn text_of(p: &Path) -> Option<&'static str> {
    std::fs::read_to_string(p).ok().map(|s| obs::leak(&s))
}
impl Job {
    fn json(&self) -> Value {
        json!([self.main, self.dirs, self.ext, self.text])
    }
    fn parse(v: &Value) -> Job {
        let s = |v: &Value| PathBuf::from(v.as_str().unwrap());
        Job { main: s(&v[0]), dirs: v[1].as_array().unwrap().iter().map(s).collect(), ext: v[2].as_bool().unwrap(), text: v[3].as_bool().unwrap() }
    }
    pub fn fresh(&self) -> Out {
        let mut i = avdl::Idl::new();
        let mut e = avdl::Idl2Schemata::new();
        for d in &self.dirs {
            i.import_dir(d);
            e.import_dir(d);
        }
        self.on(&mut i, &mut e)
    }
    pub fn on(&self, i: &mut avdl::Idl, e: &mut avdl::Idl2Schemata) -> Out {
        let t = if self.text { text_of(&self.main) } else { None };
        let inp = match t {
            Some(t) => In::Str(t, obs::leak(&self.main.display().to_string())),
            None => In::Path(&self.main),
        };
        if self.ext { obs::run_ext(e, &inp) } else { obs::run_idl(i, &inp) }
    }
    /// What the call gives, and what warnings the builder holds afterwards.
    pub fn whole(&self, i: &mut avdl::Idl, e: &mut avdl::Idl2Schemata) -> String {
        let o = self.on(i, e);
        let left = obs::guard(|| (if self.ext { e.drain_warnings() } else { i.drain_warnings() }).iter().map(|w| format!("{w:?}")).collect::<Vec<_>>());
        format!("{} left: {left:?}", show(&o))
    }
    pub fn fresh_whole(&self) -> String {
        let mut i = avdl::Idl::new();
        let mut e = avdl::Idl2Schemata::new();
        for d in &self.dirs {
            i.import_dir(d);
            e.import_dir(d);
        }
        self.whole(&mut i, &mut e)
    }
    /// The call alone, leaving its warnings where they are.
    pub fn touch(&self, i: &mut avdl::Idl, e: &mut avdl::Idl2Schemata) {
        let _ = obs::guard(|| {
            if self.ext {
                let _ = e.extract(&self.main);
            } else {
                let _ = i.convert(&self.main);
            }
        });
    }
}
pub fn show(o: &Out) -> String {
    format!("{o:?}")
}
fn differ(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let p = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
    let at = p.saturating_sub(60);
    let cut = |v: &[char]| v[at.min(v.len())..(p + 160).min(v.len())].iter().collect::<String>();
    format!("first\n   …{}…\nthen\n   …{}…", cut(&x), cut(&y))
}
fn job(p: &Prog, r: &mut Rng) -> Job {
    Job { main: p.main.clone(), dirs: p.dirs.clone(), ext: r.chance(35), text: p.main_text().is_some() && p.files.len() == 1 && r.chance(40) }
}
/// Run jobs in a process of its own; the outcomes as strings.
pub fn elsewhere(exe: &Path, dir: &Path, jobs: &[Job], threads: usize, seed: u64, wait: u64) -> Result<Vec<Vec<String>>, String> {
    let (inp, out) = (dir.join("jobs.json"), dir.join("results.json"));
    std::fs::write(&inp, json!(jobs.iter().map(|j| j.json()).collect::<Vec<_>>()).to_string()).unwrap();
    let _ = std::fs::remove_file(&out);
    let errf = dir.join("jobs.stderr");
    let mut c = Command::new(exe)
        .args(["jobs", "-", "-", "0"])
        .arg(&inp)
        .arg(&out)
        .arg(threads.to_string())
        .arg(seed.to_string())
        .env("TSAN_OPTIONS", "halt_on_error=0:exitcode=66:history_size=7:second_deadlock_stack=1")
        .env("ASAN_OPTIONS", "detect_leaks=0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&errf).unwrap())
        .spawn()
        .map_err(|e| format!("spawn: {e}"))?;
    let t = Instant::now();
    let st = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(wait) {
            let _ = c.kill();
            let _ = c.wait();
            return Err(format!("no answer within {wait} s"));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    if !st.success() && !(st.code() == Some(66) && out.exists()) {
        let e = std::fs::read(&errf).unwrap_or_default();
        return Err(format!("{st}: {}", String::from_utf8_lossy(&e[..e.len().min(20000)])));
    }
    let v: Value = serde_json::from_slice(&std::fs::read(&out).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    Ok(v.as_array().unwrap().iter().map(|a| a.as_array().unwrap().iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).collect())
}
/// The other side: `jobs IN OUT THREADS SEED`.
pub fn jobs_main(a: &[String]) {
    obs::install_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(&a[0]).unwrap()).unwrap();
    let jobs: Vec<Job> = v.as_array().unwrap().iter().map(Job::parse).collect();
    let threads: usize = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    let go = |t: usize, jobs: &[Job], gate: Option<&Barrier>| -> Vec<String> {
        let mut r = Rng::new(crate::rng::mix(seed ^ (t as u64) << 32));
        let mut order: Vec<usize> = (0..jobs.len()).collect();
        if threads > 1 && r.chance(60) {
            r.shuffle(&mut order);
        }
        let mut out = vec![String::new(); jobs.len()];
        if let Some(g) = gate {
            g.wait();
        }
        for k in order {
            match r.below(6) {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(Duration::from_micros(r.below(200) as u64)),
                2 => {
                    for _ in 0..r.below(2000) {
                        std::hint::spin_loop();
                    }
                }
                _ => {}
            }
            out[k] = jobs[k].fresh_whole();
        }
        out
    };
    let res: Vec<Vec<String>> = if threads <= 1 {
        vec![go(0, &jobs, None)]
    } else {
        let gate = Arc::new(Barrier::new(threads));
        let jobs = Arc::new(jobs);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (g, j) = (gate.clone(), jobs.clone());
                    std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || go(t, &j, Some(&g))).unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        })
    };
    std::fs::write(&a[1], json!(res).to_string()).unwrap();
}

/// C12
pub fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let base = ctx.fresh();
    let n = 12;
    let progs: Vec<Prog> = (0..n).map(|k| work::any(&base.join(format!("p{k}")), &mut r)).collect();
    for p in &progs {
        p.write();
    }
    let mut jobs: Vec<Job> = progs.iter().map(|p| job(p, &mut r)).collect();
    for (k, j) in jobs.iter_mut().enumerate() {
        // other calls: a whole directory, one without programs, a missing file
        match r.below(20) {
            0 | 1 => *j = Job { main: progs[k].dir.clone(), ext: true, text: false, ..j.clone() },
            2 => {
                let d = base.join(format!("empty{k}"));
                std::fs::create_dir_all(&d).unwrap();
                *j = Job { main: d, ext: true, text: false, ..j.clone() };
                ctx.count("calls for an empty directory", 1);
            }
            3 => *j = Job { main: base.join("missing.avdl"), text: false, ..j.clone() },
            _ => {}
        }
    }
    std::env::set_current_dir(&base).unwrap();
    let first: Vec<Out> = jobs.iter().map(|j| j.fresh()).collect();
    let shown: Vec<String> = jobs.iter().map(|j| j.fresh_whole()).collect();
    for (p, o) in progs.iter().zip(&first) {
        ctx.eval();
        ctx.count(&format!("programs: {}", p.kind), 1);
        ctx.count(if o.ok() { "outcomes: accepted" } else { "outcomes: rejected" }, 1);
        ctx.count("warnings compared", o.warns().len() as u64);
        if let Out::Err { err, .. } = o {
            ctx.count("errors compared", err.all().len() as u64);
        }
        ctx.shape(&format!("{:?}", p.files));
    }
    let mut check = |ctx: &mut Ctx, k: usize, how: &str, got: &str, sig: &str| {
        ctx.count(&format!("outcomes compared: {sig}"), 1);
        ctx.eval();
        if got != shown[k] {
            ctx.fail(sig, format!("{} {how} gave another outcome:\n{}", if jobs[k].ext { "extraction" } else { "compilation" }, differ(&shown[k], got)), &progs[k].texts());
        }
    };
    // again and again, in between others
    for k in 0..n {
        for _ in 0..2 {
            let o = jobs[k].fresh_whole();
            check(ctx, k, "repeated in the same process", &o, "repeated");
        }
    }
    // one builder for all programs without import directories, in any order
    let mut i = avdl::Idl::new();
    let mut e = avdl::Idl2Schemata::new();
    for _ in 0..2 * n {
        let k = r.below(n);
        if r.chance(30) {
            jobs[k].touch(&mut i, &mut e);
            continue;
        }
        if jobs[k].dirs.is_empty() {
            let o = jobs[k].whole(&mut i, &mut e);
            check(ctx, k, "on a builder used before", &o, "reused");
        }
    }
    // and builders of their own, used for other programs in between
    for k in (0..n).filter(|k| !jobs[*k].dirs.is_empty()) {
        let mut i = avdl::Idl::new();
        let mut e = avdl::Idl2Schemata::new();
        for d in &jobs[k].dirs {
            i.import_dir(d);
            e.import_dir(d);
        }
        for _ in 0..2 {
            jobs[r.below(n)].touch(&mut i, &mut e);
            let o = jobs[k].whole(&mut i, &mut e);
            check(ctx, k, "on a builder used before", &o, "reused");
        }
    }
    // in another process
    let exe = std::env::current_exe().unwrap();
    let procs = if ctx.thorough { 3 } else { 2 };
    for _ in 0..procs {
        match elsewhere(&exe, &base, &jobs, 1, r.u64(), 120) {
            Ok(v) => {
                for k in 0..n {
                    check(ctx, k, "in another process", &v[0][k], "other-process");
                }
            }
            Err(x) => ctx.fail("process", format!("the same compilations in another process: {x}"), &[]),
        }
    }
    // the command line program, twice
    if let Some(bin) = std::env::var_os("AVDL_BIN") {
        for k in 0..n.min(3) {
            let go = || {
                let mut c = Command::new(&bin);
                c.arg(if jobs[k].ext { "idl2schemata" } else { "idl" });
                for d in &jobs[k].dirs {
                    c.arg("--import-dir").arg(d);
                }
                c.arg(&jobs[k].main);
                let outd = base.join("out");
                if jobs[k].ext {
                    let _ = std::fs::remove_dir_all(&outd);
                    c.arg(&outd);
                }
                let o = c.current_dir(&base).stdin(Stdio::null()).output().unwrap();
                let mut files: Vec<(String, String)> = std::fs::read_dir(&outd).map(|d| d.filter_map(|e| e.ok()).map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read_to_string(e.path()).unwrap_or_default())).collect()).unwrap_or_default();
                files.sort();
                if !jobs[k].ext {
                    files.clear();
                }
                format!("{:?} {} {} {files:?}", o.status, String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))
            };
            let (a, b) = (go(), go());
            ctx.eval();
            ctx.count("outcomes compared: command line", 1);
            if a != b {
                ctx.fail("command-line", format!("two runs of the command line program differ:\n{}", differ(&a, &b)), &progs[k].texts());
            }
        }
    }
    // the same after a file of every program has changed, compared with a process
    // that never saw the old one; then after it was put back
    let mut olds = vec![];
    for k in 0..n {
        let f = r.below(progs[k].files.len());
        let (name, old) = progs[k].files[f].clone();
        let at = progs[k].dir.join(&name);
        let text = String::from_utf8_lossy(&old).into_owned();
        let new = match r.below(6) {
            0 => None,
            1 => Some(if name.ends_with(".avdl") { progs[r.below(n)].files[0].1.clone() } else { b"\"int\"".to_vec() }),
            // as long as before
            2 if text.contains("string") => Some(text.replacen("string", "double", 1).into_bytes()),
            2..=4 => Some(text.replace("string", "double").replace("RED", "REX").replace("\"a\"", "\"z\"").replace(" a;", " z;").into_bytes()),
            _ => Some(work::mutate(&text, "x", &mut r)),
        };
        match &new {
            Some(t) => std::fs::write(&at, t).unwrap(),
            None => std::fs::remove_file(&at).unwrap(),
        }
        if new.as_ref() != Some(&old) {
            ctx.count(if f == 0 { "changed: the main file" } else { "changed: an imported file" }, 1);
        }
        olds.push((at, old, name));
    }
    match elsewhere(&exe, &base, &jobs, 1, 0, 120) {
        Ok(v) => {
            for k in 0..n {
                let used = jobs[k].dirs.is_empty() && r.chance(50);
                let got = if used { jobs[k].whole(&mut i, &mut e) } else { jobs[k].fresh_whole() };
                ctx.eval();
                ctx.count("outcomes compared: after a file changed", 1);
                if got != v[0][k] {
                    ctx.fail("stale", format!("after {} changed, a process that compiled the old one gives another outcome than one that did not:\n{}", olds[k].2, differ(&v[0][k], &got)), &progs[k].texts());
                }
            }
        }
        Err(x) => ctx.fail("process", format!("the changed programs in another process: {x}"), &[]),
    }
    for (at, old, _) in &olds {
        std::fs::write(at, old).unwrap();
    }
    for k in 0..n {
        let got = jobs[k].fresh_whole();
        ctx.eval();
        ctx.count("outcomes compared: after a file was put back", 1);
        if got != shown[k] {
            ctx.fail("stale", format!("after {} was put back the outcome is another:\n{}", olds[k].2, differ(&shown[k], &got)), &progs[k].texts());
        }
    }
    std::env::set_current_dir(&ctx.dir).unwrap();
    let small = progs.iter().find(|p| p.files.iter().map(|f| f.1.len()).sum::<usize>() < 500);
    if let Some(p) = small {
        ctx.sample(|| json!({"kind": p.kind, "files": p.texts()}));
    }
}

fn races(p: &Path) -> Vec<String> {
    let t = std::fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    t.split("WARNING: ThreadSanitizer: ").skip(1).map(|r| r.split("SUMMARY: ThreadSanitizer").next().unwrap_or("").to_string()).collect()
}
/// C13
pub fn threads(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let base = ctx.fresh();
    let san = std::env::var_os("MON_TSAN").is_some();
    let n = r.range(2, 10);
    let same = r.chance(25);
    let mut progs: Vec<Prog> = vec![];
    for k in 0..n {
        progs.push(if same && k > 0 { progs[0].clone() } else { work::any(&base.join(format!("p{k}")), &mut r) });
    }
    for p in &progs {
        p.write();
    }
    let jobs: Vec<Job> = progs.iter().map(|p| job(p, &mut r)).collect();
    let t = *r.pick(&[2usize, 3, 4, 8, 16]);
    std::env::set_current_dir(&base).unwrap();
    ctx.keep(&progs.iter().flat_map(|p| p.texts()).collect::<Vec<_>>());
    let exe = match std::env::var_os("MON_TSAN") {
        Some(e) => PathBuf::from(e),
        None => std::env::current_exe().unwrap(),
    };
    // first the threads, in a process that has not used the library before
    let got = elsewhere(&exe, &base, &jobs, t, r.u64(), 240);
    let _ = std::fs::rename(base.join("jobs.stderr"), base.join("jobs.tsan"));
    let seq = elsewhere(&std::env::current_exe().unwrap(), &base, &jobs, 1, 0, 120);
    std::env::set_current_dir(&ctx.dir).unwrap();
    ctx.eval();
    ctx.count(&format!("processes with {t} threads"), 1);
    if san {
        ctx.count("processes under the race detector", 1);
    }
    for p in &progs {
        ctx.count(&format!("programs: {}", p.kind), 1);
    }
    let files: Vec<(String, String)> = progs.iter().enumerate().flat_map(|(k, p)| p.texts().into_iter().map(move |(n, t)| (format!("p{k}/{n}"), t))).collect();
    ctx.shape(&format!("{t}{files:?}"));
    if san {
        for rep in races(&base.join("jobs.tsan")) {
            // The lock that guards the parser's caches of decisions is released
            // without ordering in one place (parking_lot 0.12.5).
            let sides: Vec<&str> = rep.split("Previous ").collect();
            let known = rep.contains("data race") && sides.len() == 2 && sides.iter().all(|s| s.contains("atn_simulator") || s.contains("failed to restore the stack")) && sides.iter().any(|s| s.contains("atn_simulator"));
            if known {
                ctx.count("races in the lock of the parser's decision cache", 1);
                ctx.fail("race-decision-cache", rep, &files);
            } else {
                ctx.fail("data-race", format!("{t} threads compiling at once: {rep}"), &files);
            }
        }
    }
    match (got, seq) {
        (Ok(v), Ok(s)) => {
            for (i, th) in v.iter().enumerate() {
                if th.len() != jobs.len() {
                    ctx.fail("thread-died", format!("thread {i} of {t} died"), &files);
                    continue;
                }
                for k in 0..jobs.len() {
                    ctx.count("concurrent compilations compared", 1);
                    if th[k] != s[0][k] {
                        ctx.fail("cross-talk", format!("in thread {i} of {t} the outcome differs from that of a lone compilation:\n{}", differ(&s[0][k], &th[k])), &progs[k].texts());
                    }
                }
            }
        }
        (Err(e), Ok(_)) => {
            let sig = if e.contains("ThreadSanitizer") {
                "data-race"
            } else if e.contains("no answer") {
                "no-answer"
            } else {
                "died"
            };
            ctx.fail(sig, format!("{t} threads compiling at once: {e}"), &files)
        }
        (_, Err(e)) => ctx.fail("sequential", format!("compiling one after the other in a process: {e}"), &files),
    }
}
