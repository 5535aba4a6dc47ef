mod alloc;
mod ast;
mod canon;
mod gen_;
mod m_cli;
mod m_cost;
mod m_def;
mod m_det;
mod m_fuzz;
mod m_lit;
mod m_meta;
mod m_model;
mod m_neg;
mod m_tree;
mod m_advice;
mod m_multi;
mod m_warn;
mod model;
mod obs;
mod render;
mod rng;
mod run;
mod work;
use run::Plan;
use std::path::Path;
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn plan(prop: &str) -> Plan {
    let d = Plan::DEFAULT;
    let model = Plan {
        quick: 60_000,
        thorough: 600_000,
        rule: "one case is a random world of source files, spelled in a random style, compiled by the library and compared with the reference model; a case is non-trivial when it declares at least one named type or a main schema, and distinct when what it denotes is",
        case: m_model::case,
        need: &["documents compared"],
        ..Plan::DEFAULT
    };
    match prop {
        "C01" | "C02" | "C03" | "C05" | "C06" | "C19" | "C21" => model,
        "C07" => Plan {
            rule: "one case is a random program of several files, compiled by the library and compared with the reference model; in a third of the cases the files lie in random directories, imports are spelled in various ways (dots, absolute, import directories, links) with other files that the lookup must pass over, and one file is then removed or spoilt; distinct by what the program denotes",
            case: m_tree::case_c07,
            need: &["documents compared", "imports: respelled", "imports: absolute", "imports: through an import directory", "imports: through a link to the file", "imports: through a link to the directory", "files to be passed over", "programs named by a relative path", "programs with a missing or spoilt file"],
            ..model
        },
        "C08" => Plan {
            rule: "one case is a random program importing JSON files, compared with the reference model; in a quarter of the cases the output of a random program is imported again and must define the same types and messages; distinct by what the program denotes",
            case: m_tree::case_c08,
            directed: m_tree::known_c08,
            need: &["documents compared", "outputs imported again"],
            ..model
        },
        "C16" => Plan {
            rule: "one case is a random program extracted and compared with the reference model; in a quarter of the cases a random directory tree extracted and compared with its files extracted one by one; distinct by what is denoted",
            case: m_tree::case_c16,
            need: &["extracted schemas compared", "directories compared", "failing directories compared", "warnings of failing directories", "files of directories"],
            ..model
        },
        "C04" => Plan {
            quick: 60_000,
            thorough: 3_000_000,
            rule: "one case is a program carrying random literals (raw spelling and denoted value are generated together) in annotations, defaults, sizes, precisions, scales, namespaces, orders and aliases; a literal of more than three characters is non-trivial and distinct by its spelling",
            case: m_lit::case,
            directed: m_lit::directed,
            need: &["hexadecimal float literals", "octal integer literals", "string literals", "precision literals", "directed literals"],
            ..Plan::DEFAULT
        },
        "C09" | "C10" => Plan {
            quick: 40_000,
            thorough: 1_000_000,
            rule: "one case is a random world of IDL and JSON files with one mistake planted at a marked place; distinct by mistake and text",
            case: m_neg::case,
            need: &["mistakes in the main file", "mistakes in an imported file"],
            ..Plan::DEFAULT
        },
        "C14" => Plan {
            quick: 24_000,
            thorough: 600_000,
            rule: "one case is a random program spelled in several styles (white space, comments, line ends, quoting, literals, grouping of variables, SUB) whose results must be equal; distinct by text",
            case: m_meta::spelling,
            directed: m_meta::known_c14,
            need: &["pairs of documents compared", "pairs of extractions compared", "declarations regrouped"],
            ..Plan::DEFAULT
        },
        "C18" => Plan {
            quick: 24_000,
            thorough: 800_000,
            rule: "one case is a field of a random type, added to a random program after the types it uses, with a valid, nearly valid or arbitrary default; distinct by type and value",
            case: m_def::case,
            need: &["valid defaults", "invalid defaults", "defaults of types with references", "defaults in imported files"],
            ..Plan::DEFAULT
        },
        "C20" => Plan {
            quick: 1500,
            thorough: 40_000,
            hang_is_violation: true,
            rule: "one case is a family of programs: one repeated construct grown fourfold at a time to tens of thousands, comparing allocated bytes and processor time; or a fixed family or random chain of types compiled and extracted at n, 2n, 4n (in some 8n), comparing allocated bytes; distinct by family and size",
            case: m_cost::case,
            need: &["quadruplings compared in time", "wide families", "doublings compared", "fixed families", "random families", "accepted", "rejected"],
            ..Plan::DEFAULT
        },
        "C22" => Plan {
            quick: 24_000,
            thorough: 600_000,
            rule: "one case is a random program in several arrangements (declarations permuted, or moved into imported files) whose resolved types and messages must be equal; distinct by the resulting order of definition",
            case: m_meta::arrange,
            need: &["arrangements compared: permuted", "arrangements compared: moved", "arrangements with another order of definition"],
            ..Plan::DEFAULT
        },
        "C17" => Plan {
            quick: 24_000,
            thorough: 600_000,
            rule: "one case is a random program with stray doc comments, unrecognised characters, annotated unions and non-standard aliases planted at known places of any of its files, compiled alone, followed by an error, and followed by a clean program; distinct by text",
            case: m_warn::case,
            need: &["planted: a stray doc comment", "planted: an unrecognised character", "planted: annotations of a union", "planted: a non-standard alias", "conditions in an imported file", "failures with warnings compared"],
            ..Plan::DEFAULT
        },
        "C23" => Plan {
            quick: 24_000,
            thorough: 800_000,
            rule: "one case is a random program with several undefined names (at sites of every kind, in one or several files), or a record with several invalid defaults, or one misspelled name; compiled, then compiled again with one of the mistakes put right; distinct by text",
            case: m_multi::case,
            need: &["reports with several undefined names", "reports with several invalid defaults", "reports after one name was defined", "reports after one default was put right", "suggestions checked", "suggestions followed", "undefined names in a JSON file"],
            ..Plan::DEFAULT
        },
        "C24" => Plan {
            quick: 80_000,
            thorough: 1_500_000,
            rule: "one case is a random valid program with one or two random slips (a token, bracket, quote, name, keyword or value lost, added, replaced or misspelled); what the first syntax error says is judged against the tokens of the text; distinct by text",
            case: m_advice::case,
            need: &[
                "statements: unclosed brace",
                "statements: trailing comma",
                "statements: empty union",
                "statements: empty type parameter",
                "statements: missing name",
                "statements: import kind",
                "statements: annotation without value",
                "statements: quote it",
                "statements: misspelled keyword",
                "statements: unterminated string",
                "common slips named: a name dropped",
                "common slips named: union emptied",
                "common slips named: a declaration keyword misspelled",
            ],
            ..Plan::DEFAULT
        },
        "C11" => Plan {
            quick: 60_000,
            thorough: 4_000_000,
            rule: "one case is a program of any kind (mostly mutated; also token soup, random text and bytes, arbitrary JSON imports), compiled and extracted from path and text; distinct by text",
            case: m_fuzz::case,
            directed: m_fuzz::directed,
            stall_s: 60,
            hang_is_violation: true,
            need: &["outcomes: accepted", "outcomes: rejected", "diagnostics judged", "labels judged", "nested constructs tried", "compilations under the address sanitizer"],
            ..Plan::DEFAULT
        },
        "C12" => Plan {
            quick: 500,
            thorough: 12_000,
            rule: "one case is a dozen programs of every kind (valid, with one or many mistakes, with warnings, mutated), each compiled repeatedly, on used builders, in other processes and by the command line program; distinct by text",
            case: m_det::case,
            need: &["outcomes compared: after a file changed", "changed: an imported file", "outcomes compared: repeated", "outcomes compared: reused", "outcomes compared: other-process", "outcomes compared: command line", "outcomes: rejected", "outcomes: accepted", "warnings compared"],
            ..Plan::DEFAULT
        },
        "C13" => Plan {
            quick: 800,
            thorough: 16_000,
            procs: 4,
            rule: "one case is a fresh process in which 2 to 16 threads start compiling at the same moment; distinct by number of threads and programs",
            case: m_det::threads,
            san_part: 4,
            need: &["concurrent compilations compared", "processes under the race detector"],
            ..Plan::DEFAULT
        },
        "C15" => Plan {
            quick: 8000,
            thorough: 200_000,
            rule: "one case is a program of any kind given to the command line program twice, from a file, a directory or standard input, to a file, a directory or standard output, some of which cannot be written; distinct by text",
            case: m_cli::case,
            directed: m_cli::directed,
            need: &["successful runs", "failed writes", "failed compilations", "idl from standard input", "idl2schemata of a directory", "warnings expected", "diagnostic texts found on standard error", "calls that must fail"],
            ..Plan::DEFAULT
        },
        _ => d,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (cmd, prop, tier) = (a[1].as_str(), a[2].as_str(), a[3].as_str());
    let thorough = tier == "thorough";
    let seed: u64 = a[4].parse().unwrap_or_else(|_| rng::hash_str(&a[4]));
    let p = plan(prop);
    match cmd {
        "jobs" => m_det::jobs_main(&a[5..]),
        "child" => run::child(&p, prop, thorough, seed, &a[5..]),
        "case" => {
            // run one case in this process and print what it found
            if let (Some(san), None) = (std::env::var_os("MON_SAN"), std::env::var_os("MON_ASAN")) {
                if prop == "C13" {
                    std::env::set_var("MON_TSAN", san);
                } else {
                    let _ = std::process::Command::new(san).args(&a[1..]).env("MON_ASAN", "1").status();
                }
            }
            let dir = run::scratch();
            obs::install_hook();
            let mut ctx = run::Ctx::new(prop, thorough, seed, &dir);
            let c: u64 = a[5].parse().unwrap();
            ctx.begin(c);
            std::env::set_current_dir(&dir).unwrap();
            let r = obs::guard(|| if c == u64::MAX { (p.directed)(&mut ctx) } else { (p.case)(&mut ctx) });
            for v in &ctx.viols {
                println!("=== {}: {}", v.sig, v.msg);
                for (n, t) in &v.files {
                    println!("--- {n}\n{t}");
                }
            }
            println!("{r:?} {:?}", ctx.counters);
            let _ = std::fs::remove_dir_all(&dir);
        }
        "run" => {
            let t0 = Instant::now();
            let dir = run::scratch();
            let (mut n, mut s) = if thorough { (p.thorough, p.thorough_s) } else { (p.quick, p.quick_s) };
            if let Some(x) = a.get(5) {
                n = x.parse().unwrap();
            }
            if let Some(x) = a.get(6) {
                s = x.parse().unwrap();
            }
            let exe = std::env::current_exe().unwrap();
            let mut sum = run::explore(&p, prop, thorough, seed, &dir, Path::new(&exe), &[], n, s);
            // the same workload once more with a sanitizer watching
            if let Some(san) = std::env::var_os("MON_SAN") {
                let (n, s) = (n / p.san_part, s / 2);
                let sd = dir.join("san");
                let more = match prop {
                    "C13" => run::explore(&p, prop, thorough, seed, &sd, &exe, &[("MON_TSAN".into(), san.to_string_lossy().into_owned())], n, s),
                    _ => run::explore(&p, prop, thorough, seed, &sd, Path::new(&san), &[("MON_ASAN".into(), "1".into()), ("ASAN_OPTIONS".into(), "detect_leaks=0".into())], n, s),
                };
                sum.merge(more);
            }
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(run::verdict(&p, prop, thorough, seed, t0, sum, serde_json::Value::Null));
        }
        _ => panic!("unknown command"),
    }
}
