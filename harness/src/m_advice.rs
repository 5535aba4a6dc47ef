//! C24: random programs with one or two slips; whatever a syntax error says
//! about the source must be true of it, and following its advice must help.
use crate::ast::*;
use crate::gen_::{self, Cfg};
use crate::m_model::*;
use crate::m_neg::upto_sub;
use crate::m_warn::tokens;
use crate::obs::{self, Diag, Out};
use crate::render::*;
use crate::rng::Rng;
use crate::run::*;
use serde_json::json;

/// The program as the scanner of this module sees it.
struct Src {
    text: String,
    toks: Vec<(usize, String)>,
    /// for every bracket token, the token that closes or opens it
    mate: Vec<Option<usize>>,
    /// for every token, the innermost bracket open before it
    inside: Vec<Option<usize>>,
}
const DECL: &[&str] = &["record", "error", "enum", "fixed", "protocol"];
const KEYS: &[&str] = &[
    "protocol", "record", "error", "enum", "fixed", "import", "schema", "namespace", "boolean", "int", "long", "float", "double", "string", "bytes", "null", "array", "map", "union", "void", "oneway",
    "throws", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid",
];
impl Src {
    fn new(text: &str) -> Src {
        let toks = tokens(text);
        let mut mate = vec![None; toks.len()];
        let mut inside = vec![None; toks.len()];
        let mut st: Vec<usize> = vec![];
        for (i, (_, t)) in toks.iter().enumerate() {
            inside[i] = st.last().copied();
            match t.as_str() {
                "{" => st.push(i),
                "}" => {
                    if let Some(o) = st.pop() {
                        mate[o] = Some(i);
                        mate[i] = Some(o);
                    }
                }
                _ => {}
            }
        }
        Src { text: text.into(), toks, mate, inside }
    }
    fn tok(&self, i: isize) -> &str {
        if i < 0 { "" } else { self.toks.get(i as usize).map(|t| t.1.as_str()).unwrap_or("") }
    }
    fn at(&self, off: usize) -> Option<usize> {
        self.toks.binary_search_by_key(&off, |t| t.0).ok()
    }
    /// Whether a type declaration, a closing brace or nothing starts at token `i`.
    fn type_follows(&self, mut i: usize) -> bool {
        while self.tok(i as isize) == "@" && self.tok(i as isize + 2) == "(" {
            let mut depth = 0;
            i += 2;
            while i < self.toks.len() {
                depth += (self.tok(i as isize) == "(") as i32 - (self.tok(i as isize) == ")") as i32;
                i += 1;
                if depth == 0 {
                    break;
                }
            }
        }
        ["", "}"].contains(&self.tok(i as isize)) || DECL.contains(&self.tok(i as isize)) && ["{", "("].contains(&self.tok(i as isize + 2))
    }
    /// what the brace token `i` opens
    fn opens(&self, i: usize) -> &str {
        let (a, b) = (self.tok(i as isize - 1), self.tok(i as isize - 2));
        if ["record", "error", "enum", "protocol"].contains(&b) && (is_word(a) || a.starts_with(|c: char| c.is_ascii_digit())) {
            return if b == "error" { "error record" } else { b };
        }
        if ["record", "error", "enum", "protocol", "union"].contains(&a) {
            return if a == "error" { "error record" } else { a };
        }
        ""
    }
}
fn is_word(s: &str) -> bool {
    s.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_' || c == '`')
}
/// Position of the first error as the number of characters from there to the end.
fn remaining(text: &str, msg: &str) -> Option<usize> {
    let m = msg.strip_prefix("line ")?;
    let (l, m) = m.split_once(':')?;
    let c: String = m.chars().take_while(|c| c.is_ascii_digit()).collect();
    let (l, c): (usize, usize) = (l.parse().ok()?, c.parse().ok()?);
    let mut rest = text;
    for _ in 1..l {
        rest = &rest[rest.find('\n')? + 1..];
    }
    rest.chars().count().checked_sub(c)
}
fn syntax(text: &str) -> Option<Diag> {
    match obs::convert_str(text) {
        Out::Err { err, .. } => {
            let all = err.all();
            let d = all.iter().find(|d| d.labels.len() > 0)?;
            located(d)
        }
        _ => None,
    }
}
/// A syntax error, with the message that says where.
fn located(d: &Diag) -> Option<Diag> {
    let m = d.chain.iter().find(|m| m.starts_with("line "))?;
    Some(Diag { msg: m.clone(), ..d.clone() })
}
const SECOND: &str = " and a first error";
fn progress(before: &str, msg: &str, after: &str, what: &str) -> bool {
    if what.ends_with(SECOND) {
        // the error that is found first may hide it
        return true;
    }
    match syntax(after) {
        None => true,
        Some(d) => match (remaining(before, msg), remaining(after, &d.msg)) {
            (Some(a), Some(b)) => b < a || (a == 0),
            _ => true,
        },
    }
}
fn typo_of(w: &str, k: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (w.to_lowercase().chars().collect(), k.chars().collect());
    let mut prev: Vec<usize> = (0..=b.len()).collect();
    for i in 0..a.len() {
        let mut cur = vec![i + 1];
        for j in 0..b.len() {
            cur.push((prev[j] + (a[i] != b[j]) as usize).min(prev[j + 1] + 1).min(cur[j] + 1));
        }
        prev = cur;
    }
    prev[b.len()]
}
/// None: the statement is true (or none is made).
fn untrue(s: &Src, d: &Diag, defined: &[String], what: &str, ctx: &mut Ctx) -> Option<(String, String)> {
    let lab = d.labels.first()?;
    let single = !what.contains(" and ");
    let typo = what.ends_with("keyword misspelled") && single;
    let t = s.text.as_str();
    let shown = t.get(lab.off..lab.off + lab.len)?.to_string();
    let msg = d.msg.trim_start_matches("line ").trim_start_matches(|c: char| c.is_ascii_digit() || c == ':').trim_start().to_string();
    let ltext = lab.text.clone().unwrap_or_default();
    let k = s.at(lab.off);
    let fail = |k: &str, m: String| Some((k.to_string(), m));
    let mut class = "other";
    let mut r = None;
    if ltext.contains("is never closed") || msg.contains("missing closing `}` for") {
        class = "unclosed brace";
        r = (|| {
            let Some(k) = k.filter(|k| s.tok(*k as isize) == "{") else { return fail("unclosed-not-a-brace", format!("{shown:?} at {} is not a brace of the program", lab.off)) };
            let named = ltext.strip_prefix("this ").and_then(|x| x.strip_suffix(" is never closed")).unwrap_or("");
            let real = s.opens(k);
            if named != "`{`" && named != real {
                return fail("unclosed-misnamed", format!("the brace at {} opens {real:?}, not {named:?}", lab.off));
            }
            if what.contains("quote") {
                // what the lexer makes of the rest is its own affair
                return None;
            }
            if let Some(at) = remaining(t, &d.msg) {
                let at = t.char_indices().rev().nth(at.wrapping_sub(1)).map_or(t.len(), |x| x.0);
                let first = s.toks.partition_point(|x| x.0 < at);
                let open = if first < s.toks.len() { s.inside[first] } else { (0..s.toks.len()).rev().find(|i| s.tok(*i as isize) == "{" && s.mate[*i].is_none()) };
                if open != Some(k) {
                    return fail("unclosed-not-innermost", format!("innermost open at the error: {open:?}"));
                }
            }
            if msg.contains("end of file") && s.mate[k].is_some() {
                return fail("unclosed-closed", format!("the brace at {} is closed", lab.off));
            }
            None
        })();
    } else if msg.contains("missing closing") {
        class = "missing closing, no brace";
        if shown != "" && k.is_some() {
            r = fail("missing-closing-elsewhere", format!("{shown:?}"));
        } else if !s.toks.iter().enumerate().any(|(i, t)| t.1 == "{" && s.mate[i].is_none()) {
            r = fail("missing-closing-balanced", "all braces are closed".into());
        }
    } else if msg.contains("trailing comma") {
        class = "trailing comma";
        r = (|| {
            let Some(k) = k.filter(|k| s.tok(*k as isize) == ",") else { return fail("comma-not-a-comma", format!("{shown:?}")) };
            if s.tok(k as isize + 1) != "}" {
                return fail("comma-not-trailing", format!("followed by {:?}", s.tok(k as isize + 1)));
            }
            match s.inside[k] {
                Some(o) if s.opens(o) == "enum" => None,
                o => fail("comma-not-in-enum", format!("the comma at {} is in {:?}", lab.off, o.map(|o| s.opens(o)))),
            }
        })();
    } else if msg.contains("union must contain") {
        class = "empty union";
        let inner: Vec<&str> = s.toks.iter().filter(|x| x.0 >= lab.off && x.0 < lab.off + lab.len).map(|x| x.1.as_str()).collect();
        if inner != ["union", "{", "}"] {
            r = fail("union-not-empty", format!("{shown:?}"));
        }
    } else if msg.contains("requires a type parameter") {
        class = "empty type parameter";
        let inner: Vec<&str> = s.toks.iter().filter(|x| x.0 >= lab.off && x.0 < lab.off + lab.len).map(|x| x.1.as_str()).collect();
        let kw = msg.split('`').nth(1).unwrap_or("");
        if inner != [kw, "<", ">"] {
            r = fail("parameter-not-empty", format!("{shown:?}"));
        }
    } else if msg.contains("requires an integer size") {
        class = "fixed size";
        r = (|| {
            // the label lies between fixed NAME ( and )
            let i = s.toks.iter().position(|x| x.0 + x.1.len() >= lab.off + 1).unwrap_or(0);
            let mut o = None;
            for j in (0..s.toks.len()).rev() {
                if s.toks[j].1 == "(" && s.toks[j].0 < lab.off {
                    o = Some(j);
                    break;
                }
            }
            let Some(o) = o else { return fail("fixed-no-paren", format!("{shown:?}")) };
            if s.tok(o as isize - 2) != "fixed" {
                return fail("fixed-not-fixed", format!("{shown:?} {i}"));
            }
            let name = msg.split("use `fixed ").nth(1).and_then(|x| x.split('(').next()).unwrap_or("");
            if name.replace('`', "") != s.tok(o as isize - 1).replace('`', "") {
                return fail("fixed-name", format!("{name:?} for {:?}", s.tok(o as isize - 1)));
            }
            let mut new = t.to_string();
            if shown == ")" {
                new.insert_str(lab.off, "16");
            } else {
                new.replace_range(lab.off..lab.off + lab.len, "16");
            }
            if !progress(t, &d.msg, &new, what) {
                return fail("fixed-no-progress", format!("{shown:?}"));
            }
            None
        })();
    } else if msg.contains("expected name after") {
        class = "missing name";
        let kw = msg.split('`').nth(1).unwrap_or("");
        r = (|| {
            let Some(k) = k.filter(|k| s.tok(*k as isize) == "{") else { return fail("name-not-at-brace", format!("{shown:?}")) };
            if s.tok(k as isize - 1) != kw {
                return fail("name-not-after-keyword", format!("{:?} before", s.tok(k as isize - 1)));
            }
            None
        })();
    } else if msg.contains("is missing its value") || msg.contains("unexpected `@` before") {
        class = "annotation without value";
        let missing = msg.contains("is missing its value");
        let a = if missing {
            msg.split("annotation `@").nth(1).and_then(|x| x.split("` is missing").next()).unwrap_or("")
        } else {
            msg.split('`').nth(3).unwrap_or("")
        };
        if !s.toks.iter().enumerate().any(|(i, x)| x.1 == "@" && match s.tok(i as isize + 1).strip_prefix(a) {
            // this scanner does not split an identifier from what is glued to it
            Some(rest) => (rest.is_empty() || a.ends_with('`') || rest.starts_with(['.', '`', '-', '+'])) && (s.tok(i as isize + 2) != "(" || !rest.is_empty()),
            None => false,
        }) {
            r = fail("annotation-has-value", a.to_string());
        }
    } else if msg.contains("annotations require") {
        class = "annotation expected";
        let before: Vec<&str> = s.toks.iter().filter(|x| x.0 < lab.off).map(|x| x.1.as_str()).collect();
        let at = before.iter().rposition(|x| *x == "@").map_or(0, |i| i + 1);
        if at == 0 || before.len() == at || before[at..].iter().any(|x| x.starts_with(|c: char| "{}()<>,;:=?[]\"".contains(c))) {
            r = fail("no-annotation-there", format!("after {:?}", before.iter().rev().take(2).rev().collect::<Vec<_>>()));
        }
    } else if msg.contains("missing kind specifier") {
        class = "import kind";
        if !s.toks.iter().enumerate().any(|(i, x)| x.1 == "import" && s.tok(i as isize + 1).starts_with('"')) {
            r = fail("import-has-kind", shown.clone());
        }
    } else if msg.contains("did you mean `\"") {
        class = "quote it";
        let w = msg.split('`').nth(1).unwrap_or("").to_string();
        r = (|| {
            if shown != w || k.is_none() {
                return fail("quote-elsewhere", format!("{shown:?}"));
            }
            let mut new = t.to_string();
            new.replace_range(lab.off..lab.off + lab.len, &format!("\"{w}\""));
            if !progress(t, &d.msg, &new, what) {
                return fail("quote-no-progress", w.clone());
            }
            None
        })();
    } else if msg.contains("did you mean `") {
        class = "misspelled keyword";
        let w = msg.split('`').nth(1).unwrap_or("").to_string();
        let kw = msg.split("did you mean `").nth(1).and_then(|x| x.split('`').next()).unwrap_or("").to_string();
        r = (|| {
            if !KEYS.contains(&kw.as_str()) {
                return fail("keyword-unknown", kw.clone());
            }
            let dist = typo_of(&w, &kw);
            if dist == 0 || dist > 2 {
                return fail("keyword-far", format!("{w} {kw}"));
            }
            // every place it can mean
            let at: Vec<usize> = s.toks.iter().filter(|x| x.1 == w).map(|x| x.0).collect();
            if at.is_empty() {
                return fail("keyword-not-there", w.clone());
            }
            if defined.contains(&w) {
                return fail("keyword-defined", format!("{w} is defined by the program, {kw} suggested"));
            }
            let spot = if shown == w && k.is_some() { lab.off } else { *at.iter().rev().find(|o| **o <= lab.off).unwrap_or(&at[0]) };
            if shown != w {
                ctx.count("misspelled keyword: label is another token", 1);
            }
            let mut new = t.to_string();
            new.replace_range(spot..spot + w.len(), &kw);
            if typo && !progress(t, &d.msg, &new, what) {
                return fail("keyword-no-progress", format!("{w} -> {kw}"));
            }
            None
        })();
    } else if msg.contains("unterminated string") {
        class = "unterminated string";
        if !shown.starts_with('"') || k.is_some() {
            r = fail("string-terminated", format!("{shown:?}"));
        }
    } else {
        class = "no cause named";
        ctx.count(&format!("plain: {}", msg.split(['`', '\'']).next().unwrap_or("")), 1);
    }
    ctx.count(&format!("statements: {class}"), 1);
    r.map(|(a, b)| (a, format!("{b}\nmessage: {}\nlabel: {:?} {:?} {:?}\nhelp: {:?}", d.msg, lab.off, shown, lab.text, d.help)))
}
fn defined(w: &World) -> Vec<String> {
    w.all_types().iter().flat_map(|t| [t.1.name.name.clone(), t.1.name.full()]).collect()
}
/// Gives a type a name that has a keyword in it.
fn keyword_in_name(t: &str, defined: &mut Vec<String>, r: &mut Rng) -> String {
    let toks = tokens(t);
    let names: Vec<&String> = toks.iter().map(|x| &x.1).filter(|x| defined.contains(x) && x.starts_with(|c: char| c.is_ascii_uppercase())).collect();
    if names.is_empty() {
        return t.to_string();
    }
    let old = (*r.pick(&names)).clone();
    let kw = *r.pick(&["record", "error", "enum", "fixed", "union", "map", "array", "import", "protocol"]);
    let new = match r.below(4) {
        0 => format!("other{kw}"),
        1 => format!("sub_{kw}"),
        2 => format!("org.{kw}"),
        _ => format!("{kw}Entry"),
    };
    let mut o = t.to_string();
    for (off, w) in toks.iter().rev() {
        if *w == old {
            o.replace_range(*off..off + w.len(), &new);
        }
    }
    defined.push(new);
    o
}
fn misspell(k: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = k.chars().collect();
    let i = r.below(c.len());
    match r.below(5) {
        0 if c.len() > 3 => {
            c.remove(i);
        }
        1 => c.insert(i, *r.pick(&['e', 'r', 'x', 'd'])),
        2 if i > 0 => c.swap(i, i - 1),
        3 => c[i] = c[i].to_ascii_uppercase(),
        _ => c[i] = 'o',
    }
    c.into_iter().collect()
}
fn edit(t: &str, r: &mut Rng) -> Option<(String, &'static str)> {
    let s = Src::new(t);
    if s.toks.is_empty() {
        return None;
    }
    let n = s.toks.len();
    let find = |r: &mut Rng, f: &dyn Fn(usize) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..n).filter(|i| f(*i)).collect();
        if v.is_empty() { None } else { Some(*r.pick(&v)) }
    };
    let rng_of = |i: usize| s.toks[i].0..s.toks[i].0 + s.toks[i].1.len();
    let mut o = t.to_string();
    let what = match r.below(13) {
        0 => {
            let i = find(r, &|i| s.tok(i as isize) == "}")?;
            o.replace_range(rng_of(i), " ");
            match s.mate[i].map(|o| s.opens(o)) {
                Some("record" | "error record" | "protocol") if s.type_follows(i + 1) => "a record's brace dropped",
                _ => "a closing brace dropped",
            }
        }
        1 => {
            let i = find(r, &|i| KEYS.contains(&s.tok(i as isize)))?;
            let w = misspell(s.tok(i as isize), r);
            o.replace_range(rng_of(i), &w);
            if DECL.contains(&s.tok(i as isize)) && s.tok(i as isize + 2) == "{" && typo_of(&w, s.tok(i as isize)) == 1 {
                "a declaration keyword misspelled"
            } else {
                "a keyword misspelled"
            }
        }
        2 => {
            let i = find(r, &|i| s.tok(i as isize) == "{" && DECL.contains(&s.tok(i as isize - 2)))?;
            o.replace_range(rng_of(i - 1), " ");
            "a name dropped"
        }
        3 => {
            let i = find(r, &|i| s.tok(i as isize) == "}")?;
            o.insert(s.toks[i].0, ',');
            if s.mate[i].is_some_and(|o| s.opens(o) == "enum" && o + 1 < i) { "a comma before an enum's brace" } else { "a comma before a brace" }
        }
        4 => {
            let i = find(r, &|i| s.tok(i as isize) == "(")?;
            o.replace_range(rng_of(i), " ");
            "a parenthesis dropped"
        }
        5 => {
            let i = find(r, &|i| s.tok(i as isize).starts_with('"'))?;
            let e = rng_of(i).end;
            if r.chance(50) {
                o.replace_range(e - 1..e, "");
                if t[e..].split('\n').next().unwrap().contains('"') { "a quote among others dropped" } else { "a quote dropped" }
            } else {
                o.replace_range(rng_of(i), "YELLOW");
                "a string unquoted"
            }
        }
        6 => {
            let i = find(r, &|_| true)?;
            o.truncate(s.toks[i].0);
            "truncated"
        }
        7 => {
            let i = find(r, &|i| ["union", "array", "map", "fixed", "decimal"].contains(&s.tok(i as isize)))?;
            let (a, close) = match s.tok(i as isize) {
                "fixed" => (i + 2, ")"),
                "union" => (i + 1, "}"),
                "decimal" => (i + 1, ")"),
                _ => (i + 1, ">"),
            };
            if a >= n {
                return None;
            }
            let mut dep = 0;
            let e = (a..n).find(|j| {
                match s.tok(*j as isize) {
                    "{" | "<" | "(" => dep += 1,
                    "}" | ">" | ")" => dep -= 1,
                    _ => {}
                }
                dep == 0 && s.tok(*j as isize) == close
            })?;
            let body = if r.chance(60) { "" } else { r.pick(&["abc", "1.5", "\"x\"", "{", "int int"]) };
            o.replace_range(rng_of(a).end..rng_of(e).start, body);
            match s.tok(i as isize) {
                "fixed" if ["", "abc"].contains(&body) && DECL.contains(&s.tok(i as isize)) => "fixed emptied",
                "union" if body.is_empty() => "union emptied",
                "array" if body.is_empty() => "array emptied",
                "map" if body.is_empty() => "map emptied",
                _ => "brackets emptied",
            }
        }
        8 => {
            let i = find(r, &|i| s.tok(i as isize) == "import")?;
            if i + 1 >= n {
                return None;
            }
            o.replace_range(rng_of(i + 1), "");
            "an import kind dropped"
        }
        9 => {
            let i = find(r, &|_| true)?;
            o.insert_str(s.toks[i].0, r.pick(&["@ ", "@foo ", "@foo.bar ", "@beta ", "@record "]));
            "an annotation without value"
        }
        10 => {
            let i = find(r, &|_| true)?;
            let x = (*r.pick(&["{", "}", "(", ")", "<", ">", ",", ";", "=", "record", "foo", "union", "5", "\"s\"", "?", "enum X {", "recrod Foo {", "@a(1)"])).to_string();
            o.insert_str(s.toks[i].0, &format!("{x} "));
            "a token inserted"
        }
        11 => {
            let (i, j) = (find(r, &|_| true)?, find(r, &|_| true)?);
            o.replace_range(rng_of(i), s.tok(j as isize));
            "a token replaced"
        }
        _ => {
            let i = find(r, &|_| true)?;
            o.replace_range(rng_of(i), " ");
            "a token dropped"
        }
    };
    Some((o, what))
}
const NAMED: &[(&str, &str)] = &[
    ("a record's brace dropped", "missing closing `}`"),
    ("a declaration keyword misspelled", "did you mean"),
    ("a name dropped", "expected name after"),
    ("a comma before an enum's brace", "trailing comma"),
    ("a quote dropped", "unterminated string"),
    ("union emptied", "union must contain"),
    ("array emptied", "requires a type"),
    ("map emptied", "requires a type"),
];
pub fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let cfg = Cfg { types: (1, 5), idl_imports: (0, r.below(2)), json_imports: (0, 0), mode: (60, 30, 10), ..Cfg::small() };
    let w = gen_::world(&cfg, &mut r);
    let plain = r.chance(50);
    let mut t = render_world(&w, &mut r, &mut |r| if plain { Style::plain(r.u64()) } else { style_of(r) })[0].clone();
    t = upto_sub(&t).to_string();
    let mut defd = defined(&w);
    if r.chance(35) {
        t = keyword_in_name(&t, &mut defd, &mut r);
    }
    let mut what = vec![];
    if r.chance(8) {
        // the lexer drops these; the mistake that matters follows
        let toks = tokens(&t);
        if !toks.is_empty() {
            let strings: Vec<usize> = toks.iter().filter(|x| x.1.starts_with('"')).map(|x| x.0).collect();
            let at = if r.chance(60) && !strings.is_empty() { *r.pick(&strings) } else { r.pick(&toks).0 };
            t.insert(at, *r.pick(&['#', '%', '!', '\'', '\\', '&', '|', '~', '^']));
            what.push("a stray character");
        }
    }
    for _ in 0..if r.chance(70) { 1 } else { 2 } {
        if let Some((o, k)) = edit(&t, &mut r) {
            t = o;
            what.push(k);
        }
    }
    if what.is_empty() {
        return;
    }
    ctx.eval();
    ctx.shape(&t);
    let what = what.join(" and ");
    ctx.count(&format!("slip: {}", what.split(" and ").next().unwrap()), 1);
    let files = [("main.avdl".to_string(), t.clone())];
    let out = obs::convert_str(&t);
    let Out::Err { err, .. } = &out else {
        ctx.count("still valid", 1);
        return;
    };
    let all = err.all();
    let s = Src::new(&t);
    let mut any = false;
    if let Some(d) = all.iter().filter(|d| !d.labels.is_empty()).find_map(|d| located(d)) {
        any = true;
        if let Some((k, m)) = untrue(&s, &d, &defd, &what, ctx) {
            ctx.fail(&k, format!("{what}: {m}"), &files);
        }
        for e in d.related.iter().flat_map(|e| e.all()).filter_map(located) {
            ctx.count("secondary errors", 1);
            if let Some((k, m)) = untrue(&s, &e, &defd, &format!("{what}{SECOND}"), ctx) {
                ctx.fail(&format!("secondary {k}"), format!("{what}: {m}"), &files);
            }
        }
        if let Some((k, says)) = NAMED.iter().find(|x| plain && x.0 == what) {
            ctx.count(&format!("common slips named: {k}"), 1);
            if !d.msg.contains(says) {
                ctx.fail("slip not named", format!("{what}, but the error does not say {says:?}: {}", d.msg), &files);
            }
        }
    }
    if !any {
        ctx.count("not a syntax error", 1);
    }
    if t.len() < 400 {
        ctx.sample(|| json!({"slip": what, "source": t, "error": err.text()}));
    }
}
