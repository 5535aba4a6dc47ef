//! C04: literals. Every literal is spelled by this module together with the
//! value it denotes under the grammar (computed here, with own rounding and
//! unescaping), put somewhere in a program, and looked up in the output.
//! Numbers are compared by kind and bits, strings by character.
use crate::gen_;
use crate::obs::{self, Out};
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Value, json};

/// value equality that tells 1 from 1.0 and -0.0 from 0.0
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_i64(), y.as_i64()) {
            (Some(x), Some(y)) => x == y,
            (None, None) => match (x.as_u64(), y.as_u64()) {
                (None, None) => x.as_f64().map(f64::to_bits) == y.as_f64().map(f64::to_bits),
                (x, y) => x == y,
            },
            _ => false,
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| same(a, b))),
        _ => a == b,
    }
}
pub struct Lit {
    pub raw: String,
    pub want: Value,
    pub kind: &'static str,
}
fn case_mix(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if r.chance(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}
fn lsuf(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", "L", "l"])
}
pub fn int_lit(r: &mut Rng, lo: i64, hi: i64) -> Lit {
    let mut v = match r.below(6) {
        0 => *r.pick(&[0, 1, -1, 7, 8, 9, 10, -7, -8, 255, 256]),
        1 => *r.pick(&[lo, hi, lo.saturating_add(1), hi.saturating_sub(1)]),
        2 => {
            let b = 1i64.checked_shl(r.below(63) as u32).unwrap();
            *r.pick(&[b, b - 1, -b, b.saturating_add(1), -b - 1])
        }
        3 => (r.u64() >> r.below(64)) as i64,
        4 => {
            let mut x = 10i64.pow(r.below(19) as u32);
            x = x.wrapping_add(*r.pick(&[-1, 0, 1]));
            x
        }
        _ => r.below(1000) as i64,
    };
    if v < lo || v > hi {
        v = v.rem_euclid(100);
    }
    let a = v.unsigned_abs();
    let neg = v < 0 || (v == 0 && r.chance(20));
    let sg = if neg { "-" } else { "" };
    let (raw, kind) = match r.below(4) {
        0 => {
            let z = "0".repeat(if r.chance(30) { r.below(20) } else { 0 });
            let h = case_mix(r, &format!("{a:x}"));
            (format!("{sg}{}{z}{h}", r.pick(&["0x", "0X"])), "hexadecimal integer")
        }
        1 => {
            let z = "0".repeat(if r.chance(30) { r.range(1, 20) } else { 1 });
            (format!("{sg}{z}{a:o}"), "octal integer")
        }
        _ => (format!("{sg}{a}"), "decimal integer"),
    };
    Lit { raw: format!("{raw}{}", lsuf(r)), want: v.into(), kind }
}
fn fval(f: f64) -> Value {
    if f.is_nan() {
        "NaN".into()
    } else if f == f64::INFINITY {
        "Infinity".into()
    } else if f == f64::NEG_INFINITY {
        "-Infinity".into()
    } else {
        Value::from(f)
    }
}
fn fsuf(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", "", "f", "F", "d", "D"])
}
/// nearest double to m * 2^e (m followed by more nonzero digits if sticky), ties to even
pub fn round_bin(m: u128, sticky: bool, e: i64) -> f64 {
    if m == 0 {
        return 0.0; // sticky never comes with m == 0 here
    }
    let top = 127 - m.leading_zeros() as i64; // value in [2^(top+e), 2^(top+e+1))
    let exp = top + e;
    if exp > 1100 {
        return f64::INFINITY;
    }
    if exp < -1200 {
        return 0.0;
    }
    // weight of the last kept bit
    let lsb = (exp - 52).max(-1074);
    let sh = lsb - e;
    let (mut q, half, rest);
    if sh <= 0 {
        // exact: m needs at most 53 bits
        q = m << (-sh) as u32;
        half = false;
        rest = sticky;
    } else if sh >= 128 {
        q = 0;
        half = sh == 128 && (m >> 127) == 1;
        rest = sh > 128 || m << 1 != 0 || sticky;
    } else {
        q = m >> sh;
        half = (m >> (sh - 1)) & 1 == 1;
        rest = sticky || (sh > 1 && m & ((1u128 << (sh - 1)) - 1) != 0);
    }
    if half && (rest || q & 1 == 1) {
        q += 1;
    }
    // q * 2^lsb, q <= 2^53: exact in two steps
    let q = q as f64;
    if lsb >= -1022 {
        if lsb > 971 { q * 2f64.powi(971) * 2f64.powi((lsb - 971) as i32) } else { q * 2f64.powi(lsb as i32) }
    } else {
        q * 2f64.powi(-1000) * 2f64.powi((lsb + 1000) as i32)
    }
}
fn dec_digits(r: &mut Rng, lo: usize, hi: usize) -> String {
    (0..r.range(lo, hi)).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}
pub fn float_lit(r: &mut Rng) -> Lit {
    let sg = *r.pick(&["", "", "-", "-", "+"]);
    let (body, kind): (String, &'static str) = match r.below(11) {
        0 => {
            let raw = format!("{sg}{}", r.pick(&["NaN", "Infinity"]));
            let want = match (raw.ends_with("NaN"), sg) {
                (true, _) => "NaN",
                (_, "-") => "-Infinity",
                _ => "Infinity",
            };
            return Lit { want: want.into(), raw, kind: "NaN or infinity" };
        }
        1..=3 => {
            // hexadecimal
            let (a, b) = match r.below(4) {
                0 => (r.range(1, 3), 0),
                1 => (r.range(1, 2), r.range(1, 16)),
                2 => (0, r.range(1, 20)),
                _ => (r.range(1, 24), r.below(24)),
            };
            let mut ip: String = (0..a).map(|_| char::from_digit(r.below(16) as u32, 16).unwrap()).collect();
            let mut fp: String = (0..b).map(|_| char::from_digit(r.below(16) as u32, 16).unwrap()).collect();
            if r.chance(30) {
                // a halfway case between two doubles, possibly with a late tie-breaker
                ip = "1".into();
                fp = format!("{:013x}8{}", r.u64() >> 12, ["", "0", "000000000001", "0000"][r.below(4)]);
            }
            let mut m: u128 = 0;
            let mut e: i64 = 0;
            let mut sticky = false;
            let mut fr = 0i64;
            for (i, c) in ip.chars().chain(fp.chars()).enumerate() {
                let d = c.to_digit(16).unwrap() as u128;
                if m >> 120 == 0 {
                    m = m * 16 + d;
                } else {
                    e += 4;
                    sticky |= d != 0;
                }
                if i >= ip.len() {
                    fr += 4;
                }
            }
            let x: i64 = match r.below(6) {
                0 => 0,
                1 => r.range(0, 20) as i64 - 10,
                2 => -1022 + r.range(0, 80) as i64 - 60,
                3 => 1023 + r.range(0, 60) as i64 - 50,
                4 => *r.pick(&[-1074, -1075, -1076, -1080, 1023, 1024, -5000, 5000]),
                _ => r.range(0, 2100) as i64 - 1060,
            };
            let v = round_bin(m, sticky, e - fr + x);
            let v = if sg == "-" { -v } else { v };
            let dot = if fp.is_empty() { *r.pick(&["", "."]) } else { "." };
            let xs = if x >= 0 && r.chance(30) { format!("+{x}") } else { x.to_string() };
            let raw = format!("{sg}{}{}{dot}{}{}{xs}{}", r.pick(&["0x", "0X"]), case_mix(r, &ip), case_mix(r, &fp), r.pick(&["p", "P"]), fsuf(r));
            return Lit { raw, want: fval(v), kind: "hexadecimal float" };
        }
        4 => {
            let f = f64::from_bits(r.u64());
            (if f.is_finite() { format!("{:e}", f.abs()) } else { "1.5".into() }, "random double, shortest")
        }
        5 => {
            // exact decimal expansion of the midpoint between neighbours, and next to it
            let f = f64::from_bits((r.u64() >> 2) % (1 << 52) + ((1023 - r.below(30) as u64) << 52)).abs();
            let bits = f.to_bits();
            let next = f64::from_bits(bits + 1);
            // midpoint has 54 significant bits: print exactly with enough digits
            let (m, e) = ((bits & ((1 << 52) - 1)) | (1 << 52), ((bits >> 52) & 2047) as i32 - 1075);
            let _ = next;
            let mid = exact_decimal((m as u128) * 2 + 1, e - 1);
            let t = match r.below(3) {
                0 => mid,
                1 => format!("{mid}0000000001"),
                _ => {
                    let mut d: Vec<u8> = mid.into_bytes();
                    // the last digit of a midpoint is 5: go just below
                    let l = d.len() - 1;
                    d[l] = b'4';
                    d.extend(b"999999999");
                    String::from_utf8(d).unwrap()
                }
            };
            (t, "decimal midpoint")
        }
        6 => (format!("{}.{}", dec_digits(r, 1, 25), dec_digits(r, 0, 25)), "long decimal"),
        7 => (format!(".{}", dec_digits(r, 1, 20)), "leading point"),
        8 => (format!("{}.{}{}{}{}", dec_digits(r, 1, 3), dec_digits(r, 0, 10), r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), r.below(330)), "exponent"),
        9 => (format!("{}{}{}{}", dec_digits(r, 1, 5), r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), r.below(330)), "integer with exponent"),
        _ => (r.pick(&["0.0", "0.", ".0", "00.5", "0e0", "1e400", "1e-400", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623158e308", "1.7976931348623159e308", "9007199254740993.0", "0.1", "100.0", "1e2", "3.4028235e38", "16777217.0"]).to_string(), "notable"),
    };
    let raw = format!("{sg}{body}{}", fsuf(r));
    let f: f64 = body.parse().unwrap();
    let f = if sg == "-" { -f } else { f };
    Lit { raw, want: fval(f), kind }
}
/// m * 2^e in decimal, exactly (e <= 0)
fn exact_decimal(m: u128, e: i32) -> String {
    let k = (-e) as usize;
    // m * 5^k / 10^k
    let mut d: Vec<u32> = m.to_string().bytes().rev().map(|b| (b - b'0') as u32).collect();
    for _ in 0..k {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 5 + c;
            *x = v % 10;
            c = v / 10;
        }
        while c > 0 {
            d.push(c % 10);
            c /= 10;
        }
    }
    while d.len() <= k {
        d.push(0);
    }
    let s: String = d.iter().rev().map(|x| (b'0' + *x as u8) as char).collect();
    let (a, b) = s.split_at(s.len() - k);
    if b.is_empty() { format!("{a}.0") } else { format!("{a}.{b}") }
}
/// A string literal, its characters spelled independently of each other.
pub fn str_lit(r: &mut Rng, latin: bool) -> Lit {
    let n = match r.below(10) {
        0 => 0,
        9 => r.range(20, 200),
        _ => r.range(1, 8),
    };
    let mut want = String::new();
    let mut raw = String::from("\"");
    // an octal escape of fewer than three digits swallows digits after it
    let mut octal_open = false;
    let mut high = false;
    for _ in 0..n {
        // half a surrogate pair alone: kept as its escape
        if !latin && r.chance(6) {
            let u = match r.below(4) {
                0 => 0xd800 + r.below(0x400),
                1 => *r.pick(&[0xd800, 0xdbff, 0xdc00, 0xdfff]),
                _ => 0xdc00 + r.below(0x400),
            };
            if !(high && u >= 0xdc00) {
                let h = case_mix(r, &format!("{u:04x}"));
                raw.push_str(&format!("\\u{h}"));
                want.push_str(&format!("\\u{h}"));
                high = u < 0xdc00;
                octal_open = false;
                // what is next to the low half's range
                if high && r.chance(30) {
                    let c = *r.pick(&['\u{e000}', '\u{e001}', '\u{d7ff}', '\u{a}', 'u']);
                    raw.push_str(&format!("\\u{:04x}", c as u32));
                    want.push(c);
                    high = false;
                }
                continue;
            }
        }
        high = false;
        let c = match r.below(if latin { 5 } else { 9 }) {
            0 => char::from_u32(r.below(0x80) as u32).unwrap(),
            1 => char::from_u32(r.below(0x100) as u32).unwrap(),
            2 => *r.pick(&['"', '\\', '\'', '/', 'n', 'u', '0', '7', '8', '$', '{', '\n', '\r', '\t', '\u{8}', '\u{c}']),
            3 => char::from_digit(r.below(10) as u32, 10).unwrap(),
            4 => *r.pick(&['a', 'Z', ' ', '_', '*', 'b']),
            5 => char::from_u32(r.below(0xd800) as u32).unwrap(),
            6 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
            7 => *r.pick(&['\u{e9}', '\u{4f60}', '\u{1F600}', '\u{2028}', '\u{2029}', '\u{85}', '\u{a0}', '\u{feff}', '\u{ffff}', '\u{e000}', '\u{d7ff}', '\u{200d}', '\u{301}']),
            _ => char::from_u32(0xe000 + r.below(0x2000) as u32).unwrap(),
        };
        want.push(c);
        let simple = match c {
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '"' => Some('"'),
            '\\' => Some('\\'),
            '\'' => Some('\''),
            _ => None,
        };
        let ctl = (c as u32) < 0x20;
        let must = ctl || c == '"' || c == '\\' || c == '\u{7f}' || (octal_open && c.is_digit(8));
        let mut how = r.below(10);
        if how < 5 && must {
            how = 5 + r.below(5);
        }
        octal_open = false;
        if how < 5 {
            raw.push(c);
            continue;
        }
        if let (Some(s), true) = (simple, how < 8) {
            raw.push('\\');
            raw.push(s);
            continue;
        }
        if (c as u32) < 0x100 && how < 9 {
            let v = c as u32;
            match r.below(3) {
                0 if v < 8 => {
                    raw.push_str(&format!("\\{v:o}"));
                    octal_open = true;
                }
                1 if v < 64 => {
                    raw.push_str(&format!("\\{v:02o}"));
                    octal_open = true;
                }
                _ => raw.push_str(&format!("\\{v:03o}")),
            }
            if v >= 32 && octal_open && v < 64 {
                // two digits starting with 4-7 cannot take a third one
                octal_open = false;
            }
            continue;
        }
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
            let h = case_mix(r, &format!("{u:04x}"));
            raw.push_str(&format!("\\u{h}"));
        }
    }
    raw.push('"');
    Lit { raw, want: want.into(), kind: "string" }
}
pub fn lit(r: &mut Rng, depth: usize) -> Lit {
    match r.below(if depth == 0 { 9 } else { 12 }) {
        0..=2 => int_lit(r, i64::MIN, i64::MAX),
        3 | 4 => float_lit(r),
        5..=7 => str_lit(r, false),
        8 => {
            let (a, b) = r.pick(&[("null", Value::Null), ("true", true.into()), ("false", false.into())]).clone();
            Lit { raw: a.into(), want: b, kind: "word" }
        }
        9 | 10 => {
            let xs: Vec<Lit> = (0..r.below(5)).map(|_| lit(r, depth - 1)).collect();
            Lit { raw: format!("[{}]", xs.iter().map(|l| l.raw.clone()).collect::<Vec<_>>().join([",", " , ", "/* , */,"][r.below(3)])), want: xs.into_iter().map(|l| l.want).collect(), kind: "array" }
        }
        _ => {
            let mut o = serde_json::Map::new();
            let mut raws = vec![];
            for _ in 0..r.below(5) {
                let k = str_lit(r, false);
                let ks = k.want.as_str().unwrap().to_string();
                let v = lit(r, depth - 1);
                if o.contains_key(&ks) {
                    continue;
                }
                o.insert(ks, v.want);
                raws.push(format!("{}{}{}", k.raw, [":", " : "][r.below(2)], v.raw));
            }
            Lit { raw: format!("{{{}}}", raws.join(",")), want: Value::Object(o), kind: "object" }
        }
    }
}
/// A literal usable as default of a type, and that type's spelling.
fn typed(r: &mut Rng, depth: usize) -> (String, Lit) {
    match r.below(if depth == 0 { 8 } else { 12 }) {
        0 => (r.pick(&["int", "date", "time_ms"]).to_string(), int_lit(r, i32::MIN as i64, i32::MAX as i64)),
        1 | 2 => (r.pick(&["long", "timestamp_ms"]).to_string(), int_lit(r, i64::MIN, i64::MAX)),
        3 | 4 => (r.pick(&["double", "float", "double?"]).to_string(), if r.chance(20) { int_lit(r, i64::MIN, i64::MAX) } else { float_lit(r) }),
        5 => (r.pick(&["string", "string?", "uuid"]).to_string(), str_lit(r, false)),
        6 => (r.pick(&["bytes", "decimal(5,2)"]).to_string(), str_lit(r, true)),
        7 => ("boolean".into(), if r.chance(50) { Lit { raw: "true".into(), want: true.into(), kind: "word" } } else { Lit { raw: "false".into(), want: false.into(), kind: "word" } }),
        8 | 9 => {
            let (t, l) = typed(r, depth - 1);
            (format!("array<{t}>"), Lit { raw: format!("[{}]", l.raw), want: json!([l.want]), kind: "array" })
        }
        10 => {
            let (t, l) = typed(r, depth - 1);
            let k = str_lit(r, false);
            let mut o = serde_json::Map::new();
            o.insert(k.want.as_str().unwrap().into(), l.want);
            (format!("map<{t}>"), Lit { raw: format!("{{{}:{}}}", k.raw, l.raw), want: Value::Object(o), kind: "object" })
        }
        _ => {
            let (t, l) = typed(r, 0);
            if t.ends_with('?') { (t, l) } else { (format!("union{{{t},null}}"), l) }
        }
    }
}
fn u32_lit(r: &mut Rng, lo: u32, hi: u32) -> (String, u32) {
    let v = match r.below(4) {
        0 => lo,
        1 => hi,
        _ => lo + (r.u64() % (hi as u64 - lo as u64 + 1)) as u32,
    };
    let z = "0".repeat(if r.chance(20) { r.below(12) } else { 0 });
    let s = match r.below(4) {
        0 => {
            let h = case_mix(r, &format!("{v:x}"));
            format!("{}{z}{h}", r.pick(&["0x", "0X"]))
        }
        1 => format!("0{z}{v:o}"),
        _ => v.to_string(),
    };
    (s, v)
}
pub fn case(ctx: &mut Ctx) {
    let mut r = ctx.rng.fork();
    let r = &mut r;
    // (description, raw, wanted value, where in the output)
    let mut exp: Vec<(&'static str, String, Value, String)> = vec![];
    let mut src = String::new();
    let mut kinds = vec![];
    let mut annots = |r: &mut Rng, at: &str, kinds: &mut Vec<&'static str>, exp: &mut Vec<(&'static str, String, Value, String)>| -> String {
        let mut s = String::new();
        for i in 0..r.below(3) {
            let l = lit(r, 2);
            s.push_str(&format!("@p{i}({}) ", l.raw));
            kinds.push(l.kind);
            exp.push((l.kind, l.raw, l.want, format!("{at}/p{i}")));
        }
        s
    };
    src.push_str(&annots(r, "", &mut kinds, &mut exp));
    let nsl = r.chance(40);
    if nsl {
        // structural strings are literals too
        let (raw, want) = spell_word(r, "na.b_c");
        src.push_str(&format!("@namespace({raw}) "));
        exp.push(("string", raw, want, "/namespace".into()));
    }
    src.push_str("protocol P {\n");
    let nt = r.range(1, 3);
    for t in 0..nt {
        let at = format!("/types/{t}");
        let a = annots(r, &at, &mut kinds, &mut exp);
        match r.below(4) {
            0 => {
                let (raw, v) = u32_lit(r, 0, u32::MAX);
                src.push_str(&format!("{a}fixed T{t}({raw});\n"));
                kinds.push("size");
                exp.push(("size", raw, v.into(), format!("{at}/size")));
            }
            1 => {
                let mut al = String::new();
                if r.chance(50) {
                    let (raw, want) = spell_word(r, "Old_Name");
                    al = format!("@aliases([{raw}]) ");
                    exp.push(("string", raw, json!([want]), format!("{at}/aliases")));
                }
                src.push_str(&format!("{a}{al}enum T{t} {{ A, B }}\n"));
            }
            _ => {
                src.push_str(&format!("{a}record T{t} {{\n"));
                let nf = r.range(1, 5);
                let mut f = 0;
                while f < nf {
                    let fa = format!("{at}/fields/{f}");
                    match r.below(8) {
                        0 => {
                            let (praw, p) = u32_lit(r, 1, i32::MAX as u32);
                            let (sraw, s) = u32_lit(r, 0, p);
                            src.push_str(&format!("  decimal({praw}, {sraw}) f{f};\n"));
                            kinds.push("precision and scale");
                            exp.push(("precision", praw, p.into(), format!("{fa}/type/precision")));
                            exp.push(("scale", sraw, s.into(), format!("{fa}/type/scale?0")));
                            f += 1;
                        }
                        1 => {
                            let a = annots(r, &format!("{fa}/type"), &mut kinds, &mut exp);
                            let b = annots(r, &fa, &mut kinds, &mut exp);
                            src.push_str(&format!("  {a}array<int> {b}f{f};\n"));
                            f += 1;
                        }
                        2 => {
                            let o = *r.pick(&["ascending", "descending", "ignore"]);
                            let (raw, want) = spell_word(r, o);
                            src.push_str(&format!("  int @order({raw}) f{f};\n"));
                            exp.push(("string", raw, want, format!("{fa}/order?ascending")));
                            f += 1;
                        }
                        3 => {
                            // several variables of one declaration
                            let (ty, l) = typed(r, 1);
                            src.push_str(&format!("  {ty} f{f} = {}", l.raw));
                            exp.push((l.kind, l.raw, l.want, format!("{fa}/default")));
                            f += 1;
                            for _ in 0..r.below(3) {
                                let fa = format!("{at}/fields/{f}");
                                let l = retyped(r, &ty);
                                if let Some(l) = l {
                                    src.push_str(&format!(", f{f} = {}", l.raw));
                                    exp.push((l.kind, l.raw, l.want, format!("{fa}/default")));
                                    f += 1;
                                }
                            }
                            src.push_str(";\n");
                        }
                        _ => {
                            let (ty, l) = typed(r, 2);
                            let b = annots(r, &fa, &mut kinds, &mut exp);
                            src.push_str(&format!("  {ty} {b}f{f} = {};\n", l.raw));
                            kinds.push(l.kind);
                            exp.push((l.kind, l.raw, l.want, format!("{fa}/default")));
                            f += 1;
                        }
                    }
                }
                src.push_str("}\n");
            }
        }
    }
    if r.chance(50) {
        let a = annots(r, "/messages/m", &mut kinds, &mut exp);
        let (ty, l) = typed(r, 1);
        let b = annots(r, "/messages/m/request/0", &mut kinds, &mut exp);
        src.push_str(&format!("{a}void m({ty} {b}x = {});\n", l.raw));
        exp.push((l.kind, l.raw, l.want, "/messages/m/request/0/default".into()));
    }
    src.push_str("}\n");
    let files = vec![("main.avdl".to_string(), src.clone())];
    ctx.eval();
    let out = obs::convert_str(&src);
    let Some(j) = out.json() else {
        ctx.fail(&format!("rejected-{}", first_kind(&out)), format!("a valid program was {}", out.describe()), &files);
        return;
    };
    if !out.warns().is_empty() {
        ctx.fail("warned", format!("warnings for valid literals: {:?}", out.warns().iter().map(|d| d.text()).collect::<Vec<_>>()), &files);
    }
    for (kind, raw, want, at) in &exp {
        let (p, dflt) = match at.split_once('?') {
            Some((p, d)) => (p, Some(d)),
            None => (at.as_str(), None),
        };
        let dv = dflt.map(|d| if d == "0" { json!(0) } else { json!(d) });
        let got = j.pointer(p).or(dv.as_ref());
        ctx.count(&format!("{kind} literals"), 1);
        match got {
            Some(g) if same(g, want) => {}
            g => ctx.fail(&format!("value-{kind}"), format!("{raw} at {p}: expected {want}, got {}", g.map(|g| g.to_string()).unwrap_or("nothing".into())), &files),
        }
        if raw.len() > 3 {
            ctx.shape(raw);
        }
    }
    if src.len() < 900 {
        ctx.sample(|| json!(src));
    }
    let _ = kinds;
}
fn first_kind(o: &Out) -> &'static str {
    match o {
        Out::Panic(_) => "panic",
        _ => "error",
    }
}
/// another default for a type spelled as `ty`
fn retyped(r: &mut Rng, ty: &str) -> Option<Lit> {
    Some(match ty {
        "int" | "date" | "time_ms" => int_lit(r, i32::MIN as i64, i32::MAX as i64),
        "long" | "timestamp_ms" => int_lit(r, i64::MIN, i64::MAX),
        "double" | "float" | "double?" => float_lit(r),
        "string" | "string?" | "uuid" => str_lit(r, false),
        "bytes" => str_lit(r, true),
        _ => return None,
    })
}
fn spell_word(r: &mut Rng, w: &str) -> (String, Value) {
    let mut raw = String::from("\"");
    for c in w.chars() {
        match r.below(5) {
            0 => raw.push_str(&format!("\\u{:04x}", c as u32)),
            1 => raw.push_str(&format!("\\{:03o}", c as u32)),
            _ => raw.push(c),
        }
    }
    raw.push('"');
    (raw, w.into())
}
/// The generated program rules in a fixed form: every boundary of every kind.
pub fn directed(ctx: &mut Ctx) {
    let mut n = 0;
    let mut check = |ctx: &mut Ctx, raw: String, want: Value| {
        let src = format!("@p({raw}) protocol P {{}}");
        ctx.eval();
        n += 1;
        let files = vec![("main.avdl".to_string(), src.clone())];
        match obs::convert_str(&src).json().and_then(|j| j.get("p")) {
            Some(g) if same(g, &want) => {}
            g => ctx.fail("directed", format!("{raw}: expected {want}, got {g:?}"), &files),
        }
    };
    // every character of the basic multilingual plane, escaped and raw
    for c in (0u32..0x10000).filter_map(char::from_u32).collect::<Vec<_>>().chunks(512) {
        let want: String = c.iter().collect();
        let raw: String = c.iter().map(|c| format!("\\u{:04X}", *c as u32)).collect();
        check(ctx, format!("\"{raw}\""), want.into());
        let plain: String = c.iter().filter(|c| !c.is_control() && **c != '"' && **c != '\\').collect();
        check(ctx, format!("\"{plain}\""), plain.into());
    }
    // every octal escape, alone and before a digit
    for v in 0..256u32 {
        let c = char::from_u32(v).unwrap();
        check(ctx, format!("\"\\{v:03o}\""), c.to_string().into());
        check(ctx, format!("\"\\{v:03o}1\""), format!("{c}1").into());
        if v < 64 {
            check(ctx, format!("\"\\{v:o}x\""), format!("{c}x").into());
            check(ctx, format!("\"\\{v:o}8\""), format!("{c}8").into());
        }
    }
    for v in [0i64, 1, -1, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1] {
        let (s, a) = (if v < 0 { "-" } else { "" }, v.unsigned_abs());
        for suf in ["", "L", "l"] {
            check(ctx, format!("{s}{a}{suf}"), v.into());
            check(ctx, format!("{s}0x{a:x}{suf}"), v.into());
            check(ctx, format!("{s}0X{a:X}{suf}"), v.into());
            check(ctx, format!("{s}0{a:o}{suf}"), v.into());
        }
    }
    ctx.count("directed literals", n);
    let _ = gen_::int;
}
