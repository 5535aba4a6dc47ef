//! Observation of the real library: every call is made here, under a panic
//! guard, and its result is turned into plain data the oracles can compare.
use miette::{Diagnostic, GraphicalReportHandler, GraphicalTheme, SourceSpan};
use serde_json::Value;
use std::cell::RefCell;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
pub struct Label {
    pub off: usize,
    pub len: usize,
    pub text: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub msg: String,
    pub chain: Vec<String>,
    pub help: Option<String>,
    pub labels: Vec<Label>,
    /// name of the source the labels refer to, as the diagnostic gives it
    pub source: Option<String>,
    /// text of the labelled lines as the diagnostic gives it (None: unreadable)
    pub excerpt: Vec<Option<String>>,
    /// the whole source text the diagnostic carries, when readable
    pub whole: Option<String>,
    pub related: Vec<Diag>,
    pub rendered: Result<String, String>,
}
impl Diag {
    pub fn all(&self) -> Vec<&Diag> {
        let mut v = vec![self];
        for r in &self.related {
            v.extend(r.all());
        }
        v
    }
    pub fn text(&self) -> String {
        let mut s = self.chain.join(": ");
        for r in &self.related {
            s.push_str(" | ");
            s.push_str(&r.text());
        }
        s
    }
}
fn diag(d: &dyn Diagnostic, top: bool) -> Diag {
    let mut chain = vec![d.to_string()];
    let mut s = d.source();
    while let Some(e) = s {
        chain.push(e.to_string());
        s = e.source();
        if chain.len() > 200 {
            break;
        }
    }
    let labels: Vec<Label> = d
        .labels()
        .map(|l| l.map(|l| Label { off: l.offset(), len: l.len(), text: l.label().map(|s| s.to_string()) }).collect())
        .unwrap_or_default();
    let mut source = None;
    let mut excerpt = vec![];
    let mut whole = None;
    if let Some(sc) = d.source_code() {
        if let Ok(c) = sc.read_span(&SourceSpan::new(0.into(), 0), 0, 0) {
            source = c.name().map(|s| s.to_string());
        }
        if let Ok(c) = sc.read_span(&SourceSpan::new(0.into(), 0), 0, 10_000_000) {
            source = source.or(c.name().map(|s| s.to_string()));
            whole = String::from_utf8(c.data().to_vec()).ok();
        }
        for l in &labels {
            excerpt.push(sc.read_span(&SourceSpan::new(l.off.into(), l.len), 0, 0).ok().map(|c| String::from_utf8_lossy(c.data()).into_owned()));
        }
    }
    let rendered = if top {
        let mut s = String::new();
        match GraphicalReportHandler::new_themed(GraphicalTheme::none()).with_width(200).render_report(&mut s, d) {
            Ok(()) => Ok(s),
            Err(e) => Err(e.to_string()),
        }
    } else {
        Ok(String::new())
    };
    Diag {
        msg: d.to_string(),
        chain,
        help: d.help().map(|h| h.to_string()),
        labels,
        source,
        excerpt,
        whole,
        related: d.related().map(|r| r.map(|x| diag(x, false)).collect()).unwrap_or_default(),
        rendered,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok { json: Value, warns: Vec<Diag> },
    Schemata { schemas: Vec<(String, Value)>, warns: Vec<Diag> },
    Err { err: Box<Diag>, warns: Vec<Diag> },
    Panic(String),
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok { .. } | Out::Schemata { .. })
    }
    pub fn warns(&self) -> &[Diag] {
        match self {
            Out::Ok { warns, .. } | Out::Schemata { warns, .. } | Out::Err { warns, .. } => warns,
            Out::Panic(_) => &[],
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Out::Ok { .. } | Out::Schemata { .. } => "accepted".into(),
            Out::Err { err, .. } => format!("rejected: {}", err.text()),
            Out::Panic(p) => format!("panicked: {p}"),
        }
    }
    pub fn json(&self) -> Option<&Value> {
        if let Out::Ok { json, .. } = self { Some(json) } else { None }
    }
}
thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
fn diags(v: &[miette::Report]) -> Vec<Diag> {
    v.iter().map(|r| diag(r.as_ref(), true)).collect()
}
pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
fn idl_builder(dirs: &[PathBuf]) -> avdl::Idl {
    let mut b = avdl::Idl::new();
    for d in dirs {
        b.import_dir(d);
    }
    b
}
fn ext_builder(dirs: &[PathBuf]) -> avdl::Idl2Schemata {
    let mut b = avdl::Idl2Schemata::new();
    for d in dirs {
        b.import_dir(d);
    }
    b
}
pub enum In<'a> {
    Path(&'a Path),
    Str(&'static str, &'static str),
}
pub fn run_idl(b: &mut avdl::Idl, i: &In) -> Out {
    guard(|| {
        let r = match i {
            In::Path(p) => b.convert(p),
            In::Str(s, n) => b.convert_str_named(s, n),
        };
        match r {
            Ok(o) => Out::Ok { warns: diags(&o.warnings), json: o.json },
            Err(e) => Out::Err { err: Box::new(diag(e.as_ref(), true)), warns: diags(&b.drain_warnings()) },
        }
    })
    .unwrap_or_else(Out::Panic)
}
pub fn run_ext(b: &mut avdl::Idl2Schemata, i: &In) -> Out {
    guard(|| {
        let r = match i {
            In::Path(p) => b.extract(p),
            In::Str(s, n) => b.extract_str_named(s, n),
        };
        match r {
            Ok(o) => Out::Schemata { warns: diags(&o.warnings), schemas: o.schemas.into_iter().map(|s| (s.name, s.schema)).collect() },
            Err(e) => Out::Err { err: Box::new(diag(e.as_ref(), true)), warns: diags(&b.drain_warnings()) },
        }
    })
    .unwrap_or_else(Out::Panic)
}
pub fn convert_path(p: &Path, dirs: &[PathBuf]) -> Out {
    run_idl(&mut idl_builder(dirs), &In::Path(p))
}
pub fn convert_str(s: &str) -> Out {
    run_idl(&mut idl_builder(&[]), &In::Str(leak(s), "<input>"))
}
pub fn extract_path(p: &Path, dirs: &[PathBuf]) -> Out {
    run_ext(&mut ext_builder(dirs), &In::Path(p))
}
pub fn extract_str(s: &str) -> Out {
    run_ext(&mut ext_builder(&[]), &In::Str(leak(s), "<input>"))
}
/// What is wrong with a diagnostic on its own: unreadable or misaligned labels,
/// or a rendering failure. `texts` maps file names to the text they hold.
pub fn malformed(d: &Diag) -> Option<String> {
    if let Err(e) = &d.rendered {
        return Some(format!("cannot be rendered: {e}"));
    }
    for x in d.all() {
        if x.labels.is_empty() {
            continue;
        }
        let Some(w) = &x.whole else {
            return Some(format!("labels without readable source: {:?}", x.labels));
        };
        for (i, l) in x.labels.iter().enumerate() {
            let end = l.off.saturating_add(l.len);
            if end > w.len() {
                return Some(format!("label {}..{end} lies outside the {} byte source", l.off, w.len()));
            }
            if !w.is_char_boundary(l.off) || !w.is_char_boundary(end) {
                return Some(format!("label {}..{end} is not on character boundaries", l.off));
            }
            if x.excerpt[i].is_none() {
                return Some(format!("label {}..{end} cannot be read", l.off));
            }
        }
    }
    None
}
