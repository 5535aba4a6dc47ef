//! Driver: a parent process hands out case numbers to child processes, watches
//! them (crashes, runaway allocation, no progress), gathers what they observed
//! and writes the verdict and the evidence.
use crate::rng::{Rng, hash_str, mix};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
    pub files: Vec<(String, String)>,
    pub case: u64,
}
pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub case: u64,
    pub dir: PathBuf,
    pub rng: Rng,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub shapes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub viols: Vec<Viol>,
    seen_sigs: HashSet<String>,
    nworld: u64,
}
impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, dir: &Path) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            case: 0,
            dir: dir.into(),
            rng: Rng::new(0),
            evals: 0,
            counters: BTreeMap::new(),
            shapes: HashSet::new(),
            samples: vec![],
            viols: vec![],
            seen_sigs: HashSet::new(),
            nworld: 0,
        }
    }
    pub fn begin(&mut self, case: u64) {
        self.case = case;
        self.rng = Rng::new(mix(self.seed ^ hash_str(&self.prop)).wrapping_add(mix(case.wrapping_mul(0x9E37_79B9))));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    /// One execution of the code under test was judged.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn shape(&mut self, s: &str) {
        self.shapes.insert(hash_str(s));
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            let x = v();
            self.samples.push(x);
        }
    }
    /// `sig` identifies the kind of failure; one report per kind and child.
    pub fn fail(&mut self, sig: &str, msg: String, files: &[(String, String)]) {
        if self.seen_sigs.insert(sig.to_string()) {
            self.viols.push(Viol { sig: sig.into(), msg, files: files.to_vec(), case: self.case });
        }
    }
    /// A fresh scratch directory for one case.
    pub fn fresh(&mut self) -> PathBuf {
        self.nworld += 1;
        let old = self.dir.join(format!("w{}", self.nworld - 1));
        if old.exists() {
            let _ = std::fs::remove_dir_all(&old);
        }
        let d = self.dir.join(format!("w{}", self.nworld));
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}

pub struct Plan {
    pub quick: u64,
    pub thorough: u64,
    /// seconds after which children stop taking new cases
    pub quick_s: u64,
    pub thorough_s: u64,
    pub rule: &'static str,
    pub case: fn(&mut Ctx),
    /// fixed cases run once before the random ones
    pub directed: fn(&mut Ctx),
    pub procs: usize,
    /// seconds one case may take before it counts as hung
    pub stall_s: u64,
    /// the run with a sanitizer takes this part of the cases
    pub san_part: u64,
    /// the property itself promises termination within bounds
    pub hang_is_violation: bool,
    /// at least this many evaluations, or the run is inconclusive
    pub min_evals: u64,
    /// counters that must be positive for a conclusive run
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}
impl Plan {
    pub const DEFAULT: Plan = Plan {
        quick: 4000,
        thorough: 100_000,
        quick_s: 60,
        thorough_s: 480,
        rule: "",
        case: |_| {},
        directed: |_| {},
        procs: 8,
        stall_s: 120,
        san_part: 8,
        hang_is_violation: false,
        min_evals: 100,
        need: &[],
        assumptions: &[],
    };
}
const DIRECTED: u64 = u64::MAX;

fn viol_json(v: &Viol) -> Value {
    json!({"sig": v.sig, "msg": v.msg, "case": v.case, "files": v.files.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()})
}

pub fn child(plan: &Plan, prop: &str, thorough: bool, seed: u64, args: &[String]) {
    let [first, step, n, secs, dir, directed] = args else { panic!("child arguments") };
    let (first, step, n, secs): (u64, u64, u64, u64) = (first.parse().unwrap(), step.parse().unwrap(), n.parse().unwrap(), secs.parse().unwrap());
    crate::obs::install_hook();
    std::fs::create_dir_all(dir).unwrap();
    let mut ctx = Ctx::new(prop, thorough, seed, Path::new(dir));
    let inflight = std::fs::File::create(Path::new(dir).join("inflight")).unwrap();
    use std::os::unix::fs::FileExt;
    let mut out = std::io::stdout();
    let t0 = Instant::now();
    let mut run = |ctx: &mut Ctx, case: u64, f: fn(&mut Ctx)| {
        let _ = inflight.write_all_at(&case.to_le_bytes(), 0);
        ctx.begin(case);
        crate::alloc::limit(8 << 30);
        if let Err(p) = crate::obs::guard(|| f(ctx)) {
            // the monitor itself failed
            let _ = writeln!(out, "E {}", json!(format!("case {case}: monitor panicked: {p}")));
        }
        for v in std::mem::take(&mut ctx.viols) {
            let _ = writeln!(out, "V {}", viol_json(&v));
        }
        let _ = out.flush();
    };
    if directed == "1" {
        run(&mut ctx, DIRECTED, plan.directed);
    }
    let mut c = first;
    let mut cases = 0;
    while c < n && t0.elapsed() < Duration::from_secs(secs) {
        run(&mut ctx, c, plan.case);
        c += step;
        cases += 1;
    }
    let shapes: Vec<u8> = ctx.shapes.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(Path::new(dir).join("shapes"), shapes);
    println!("D {}", json!({"evals": ctx.evals, "counters": ctx.counters, "samples": ctx.samples, "cases": cases}));
}

struct Known {
    sig: String,
    text: String,
}
fn known(prop: &str) -> Vec<Known> {
    let p = Path::new(env!("CARGO_MANIFEST_DIR")).join("../known-findings");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != prop {
                return None;
            }
            let rest = rest.strip_prefix("sig=")?;
            let (sig, text) = rest.split_once(' ')?;
            Some(Known { sig: sig.into(), text: text.into() })
        })
        .collect()
}

pub fn scratch() -> PathBuf {
    let base = ["/dev/shm", "/tmp"].iter().map(Path::new).find(|b| {
        let p = b.join(format!("avdl-mon-probe-{}", std::process::id()));
        let ok = std::fs::write(&p, "x").is_ok();
        let _ = std::fs::remove_file(&p);
        ok
    });
    let d = base.expect("a writable scratch directory").join(format!("avdl-mon-{}-{}", std::process::id(), mix(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64)));
    std::fs::create_dir_all(&d).unwrap();
    d.canonicalize().unwrap()
}

pub struct Summary {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub shapes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub viols: Vec<Viol>,
    pub errors: Vec<String>,
    pub cases: u64,
}
impl Summary {
    pub fn merge(&mut self, o: Summary) {
        self.evals += o.evals;
        self.cases += o.cases;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.shapes.extend(o.shapes);
        self.viols.extend(o.viols);
        self.errors.extend(o.errors);
    }
}

/// Run the workload of a plan in child processes.
pub fn explore(plan: &Plan, prop: &str, thorough: bool, seed: u64, dir: &Path, exe: &Path, envs: &[(String, String)], n: u64, secs: u64) -> Summary {
    enum Ev {
        Line(usize, String),
        End(usize),
    }
    let procs = plan.procs;
    let mut sum = Summary { evals: 0, counters: BTreeMap::new(), shapes: HashSet::new(), samples: vec![], viols: vec![], errors: vec![], cases: 0 };
    let (tx, rx) = std::sync::mpsc::channel::<Ev>();
    struct Slot {
        child: std::process::Child,
        dir: PathBuf,
        last: u64,
        since: Instant,
        done: bool,
        closed: bool,
        restarts: usize,
        killed: bool,
        stderr: PathBuf,
    }
    let t0 = Instant::now();
    let spawn = |k: usize, first: u64, gen_: usize, directed: bool, tx: &std::sync::mpsc::Sender<Ev>| -> Slot {
        let d = dir.join(format!("c{k}-{gen_}"));
        std::fs::create_dir_all(&d).unwrap();
        let left = secs.saturating_sub(t0.elapsed().as_secs());
        let stderr = d.join("stderr");
        let mut cmd = Command::new(exe);
        cmd.arg("child")
            .args([prop, if thorough { "thorough" } else { "quick" }])
            .arg(seed.to_string())
            .args([first.to_string(), procs.to_string(), n.to_string(), left.to_string()])
            .arg(&d)
            .arg(if directed { "1" } else { "0" })
            .current_dir(&d)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(&stderr).unwrap());
        for (a, b) in envs {
            cmd.env(a, b);
        }
        let mut child = cmd.spawn().expect("spawn child");
        let so = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(|l| l.ok()) {
                let _ = tx.send(Ev::Line(k, l));
            }
            let _ = tx.send(Ev::End(k));
        });
        Slot { child, dir: d, last: u64::MAX - 1, since: Instant::now(), done: false, closed: false, restarts: gen_, killed: false, stderr }
    };
    let mut slots: Vec<Slot> = (0..procs).map(|k| spawn(k, k as u64, 0, k == 0, &tx)).collect();
    let read_inflight = |d: &Path| -> Option<u64> { std::fs::read(d.join("inflight")).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes) };
    while slots.iter().any(|s| !s.closed) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Ev::Line(k, l)) => {
                let Some((tag, body)) = l.split_once(' ') else { continue };
                let Ok(v) = serde_json::from_str::<Value>(body) else { continue };
                match tag {
                    "V" => sum.viols.push(Viol {
                        sig: v["sig"].as_str().unwrap_or("").into(),
                        msg: v["msg"].as_str().unwrap_or("").into(),
                        case: v["case"].as_u64().unwrap_or(0),
                        files: v["files"].as_array().map(|a| a.iter().map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string())).collect()).unwrap_or_default(),
                    }),
                    "E" => sum.errors.push(v.as_str().unwrap_or("").into()),
                    "D" => {
                        slots[k].done = true;
                        sum.evals += v["evals"].as_u64().unwrap_or(0);
                        sum.cases += v["cases"].as_u64().unwrap_or(0);
                        for (c, x) in v["counters"].as_object().into_iter().flatten() {
                            *sum.counters.entry(c.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                        }
                        if sum.samples.len() < 3 {
                            sum.samples.extend(v["samples"].as_array().into_iter().flatten().take(1).cloned());
                        }
                        if let Ok(b) = std::fs::read(slots[k].dir.join("shapes")) {
                            sum.shapes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                        }
                    }
                    _ => {}
                }
            }
            Ok(Ev::End(k)) => {
                let st = slots[k].child.wait();
                let s = &mut slots[k];
                s.closed = true;
                if s.done {
                    continue;
                }
                // it died: the case in flight killed it
                let case = read_inflight(&s.dir);
                let err = std::fs::read(&s.stderr).map(|b| String::from_utf8_lossy(&b[..b.len().min(6000)]).into_owned()).unwrap_or_default();
                let how = format!("{st:?}");
                let code = st.as_ref().ok().and_then(|s| s.code());
                match case {
                    None => sum.errors.push(format!("child {k} died before its first case: {how} {err}")),
                    Some(c) => {
                        let (sig, what) = if s.killed {
                            ("hang", format!("no answer within {} s", plan.stall_s))
                        } else if code == Some(77) {
                            ("runaway", "allocated more memory than its budget".to_string())
                        } else {
                            ("crash", format!("the process died: {how}\n{err}"))
                        };
                        if (s.killed || code == Some(77)) && !plan.hang_is_violation {
                            sum.errors.push(format!("case {c}: {what}"));
                        } else if std::env::var_os("MON_OOM").is_some() {
                            sum.errors.push(format!("case {c}: {what}"));
                        } else {
                            sum.viols.push(Viol { sig: sig.into(), msg: what, case: c, files: saved(&s.dir) });
                        }
                        let next = if c == DIRECTED { k as u64 } else { c + procs as u64 };
                        if s.restarts < 3 && next < n {
                            let g = s.restarts + 1;
                            slots[k] = spawn(k, next, g, false, &tx);
                        }
                    }
                }
            }
            Err(_) => {}
        }
        for s in slots.iter_mut().filter(|s| !s.closed) {
            let now = read_inflight(&s.dir).unwrap_or(u64::MAX - 1);
            if now != s.last {
                s.last = now;
                s.since = Instant::now();
            } else if s.since.elapsed() > Duration::from_secs(plan.stall_s) && !s.killed {
                s.killed = true;
                let _ = s.child.kill();
            }
        }
        if sum.viols.len() >= 12 {
            for s in slots.iter_mut() {
                s.done = true;
                let _ = s.child.kill();
                let _ = s.child.wait();
            }
            break;
        }
    }
    sum
}
/// Files a case stored for post-mortem use (see `Ctx::keep`).
fn saved(d: &Path) -> Vec<(String, String)> {
    std::fs::read(d.join("case-files"))
        .ok()
        .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
        .and_then(|v| v.as_array().map(|a| a.iter().map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string())).collect()))
        .unwrap_or_default()
}
impl Ctx {
    /// Store the inputs where the parent finds them if this process dies.
    pub fn keep(&self, files: &[(String, String)]) {
        let v: Value = files.iter().map(|(a, b)| json!([a, b])).collect();
        let _ = std::fs::write(self.dir.join("case-files"), v.to_string());
    }
}

pub fn verdict(plan: &Plan, prop: &str, thorough: bool, seed: u64, t0: Instant, mut sum: Summary, extra: Value) -> i32 {
    let root = Path::new(env!("CARGO_MANIFEST_DIR")).join("..");
    let ev = root.join("evidence");
    let rep = ev.join("replay");
    std::fs::create_dir_all(&rep).unwrap();
    let known = known(prop);
    let mut reported = HashSet::new();
    let mut bad = 0;
    let mut n = 0;
    sum.viols.sort_by_key(|v| (v.sig.clone(), v.case));
    for v in &sum.viols {
        if let Some(k) = known.iter().find(|k| k.sig == v.sig) {
            if reported.insert(k.sig.clone()) {
                println!("KNOWN-FINDING: property={prop} {}", k.text);
            }
            continue;
        }
        bad += 1;
        if !reported.insert(v.sig.clone()) {
            continue;
        }
        n += 1;
        let p = rep.join(format!("{prop}-{n}.json"));
        let body = json!({"property": prop, "seed": seed, "tier": if thorough {"thorough"} else {"quick"}, "case": v.case, "sig": v.sig, "what": v.msg,
            "files": v.files.iter().map(|(a, b)| json!({"path": a, "text": b})).collect::<Vec<_>>(),
            "replay": format!("VERIF_SEED={seed} ./check.sh {prop} --case {}", v.case)});
        std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("{}: {}", v.sig, v.msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={prop} replay=/verif/evidence/replay/{prop}-{n}.json");
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = json!({
        "evaluations": sum.evals,
        "distinct_nontrivial": sum.shapes.len(),
        "rule": plan.rule,
        "samples": sum.samples,
        "cases": sum.cases,
        "observed": sum.counters,
    });
    if let (Some(c), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            c.insert(k.clone(), v.clone());
        }
    }
    let mut why = sum.errors.clone();
    if bad == 0 {
        if sum.evals < plan.min_evals {
            why.push(format!("only {} evaluations, {} needed", sum.evals, plan.min_evals));
        }
        for k in plan.need {
            if sum.counters.get(*k).copied().unwrap_or(0) == 0 {
                why.push(format!("`{k}` was never observed"));
            }
        }
    }
    let e = json!({"property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": plan.assumptions, "wall_s": wall, "violations": bad, "inconclusive": why});
    std::fs::write(ev.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap()).unwrap();
    println!("{prop}: {} evaluations in {} cases, {} distinct, {} violations, {wall:.1} s", sum.evals, sum.cases, sum.shapes.len(), bad);
    println!("observed: {}", serde_json::to_string(&sum.counters).unwrap());
    if bad > 0 {
        return 1;
    }
    if !why.is_empty() {
        for w in why.iter().take(5) {
            eprintln!("INCONCLUSIVE: {w}");
        }
        return 2;
    }
    0
}
