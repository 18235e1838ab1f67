mod engine;
mod gen;
mod img;
mod model;
mod props;
mod render;
mod tool;

use engine::*;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn level(_id: &str) -> &'static str {
    "exploration"
}

fn write_evidence(verif: &Path, p: &Property, tier: &str, seed: u64, st: &Stats, wall: f64, violations: usize, known: &[String]) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", js(p.id), js(tier), seed, js(level(p.id))));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"sub_inputs_compared\": {},\n  \"nontrivial\": {},\n  \"distinct_nontrivial\": {},\n", st.evaluations, st.subcases, st.nontrivial, st.distinct.len()));
    s.push_str(&format!("  \"rule\": {},\n", js(p.rule)));
    let fam: Vec<String> = st.per_family.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    s.push_str(&format!("  \"cases_per_family\": {{{}}},\n", fam.join(", ")));
    let lab: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    s.push_str(&format!("  \"labels\": {{{}}},\n", lab.join(", ")));
    let sw: Vec<String> = st.sweeps.iter().map(|x| js(x)).collect();
    s.push_str(&format!("  \"complete_sweeps\": [{}],\n", sw.join(", ")));
    let kn: Vec<String> = known.iter().map(|x| js(x)).collect();
    s.push_str(&format!("  \"known_findings_seen\": [{}],\n", kn.join(", ")));
    let sm: Vec<String> = st.samples.iter().take(10).map(|(f, x)| format!("   {{\"family\": {}, \"case\": {}}}", js(f), js(x))).collect();
    s.push_str(&format!("  \"samples\": [\n{}\n  ]\n", sm.join(",\n")));
    s.push_str(" },\n");
    let asm: Vec<String> = p.assumptions.iter().map(|x| js(x)).collect();
    s.push_str(&format!(" \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", asm.join(", "), wall, violations));
    let d = verif.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", p.id)), s).expect("evidence");
}

struct Cleanup(PathBuf);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: wbcheck check <ID> | replay <FILE> | list x");
        return 2;
    }
    let verif = PathBuf::from(std::env::var("WB_VERIF").unwrap_or("/verif".into()));
    let wb = PathBuf::from(std::env::var("WB_BIN").unwrap_or("/verif/target/wb/debug/waterbear".into()));
    if args[1] == "list" {
        for p in props::all() {
            println!("{}", p.id);
        }
        return 0;
    }
    if !wb.is_file() {
        eprintln!("no waterbear binary at {}", wb.display());
        return 2;
    }
    tool::WB.set(wb).unwrap();
    let tmp = std::env::temp_dir();
    let scratch = tmp.join(format!("wbcheck.{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    tool::SCRATCH.set(scratch.canonicalize().unwrap()).unwrap();
    let _cleanup = Cleanup(scratch);
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("WB_DEBUG").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let threads = std::env::var("WB_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    match args[1].as_str() {
        "check" => {
            let all = props::all();
            let p = match all.iter().find(|p| p.id == args[2]) {
                Some(p) => p,
                None => {
                    eprintln!("unknown property {}", args[2]);
                    return 2;
                }
            };
            let t0 = Instant::now();
            let mut st = Stats::default();
            let out = run_property(p, seed, thorough, threads, &mut st);
            let known = props::known(p.id);
            let wall = t0.elapsed().as_secs_f64();
            match out {
                Outcome::Held => {
                    // listed findings: still failing is announced, silence otherwise
                    let mut seen = vec![];
                    for k in &known {
                        let mut ctx = tool::Ctx::new(97);
                        match (k.still_fails)(&mut ctx) {
                            Ok(true) => {
                                println!("KNOWN-FINDING: property={} {}", p.id, k.what);
                                seen.push(k.what.to_string());
                            }
                            Ok(false) => {}
                            Err(e) => {
                                eprintln!("error while re-running known finding: {:?}", e);
                                return 2;
                            }
                        }
                    }
                    write_evidence(&verif, p, if thorough { "thorough" } else { "quick" }, seed, &st, wall, 0, &seen);
                    println!(
                        "{}: held on {} cases ({} distinct non-trivial, {} sub-inputs) in {:.1}s",
                        p.id,
                        st.evaluations,
                        st.distinct.len(),
                        st.subcases,
                        wall
                    );
                    if std::env::var("WB_LABELS").is_ok() {
                        for (k, v) in &st.labels {
                            println!("   {:30} {}", k, v);
                        }
                    }
                    0
                }
                Outcome::Violated(f) => {
                    let d = verif.join("replays");
                    let _ = std::fs::create_dir_all(&d);
                    let path = d.join(format!("{}-seed{}-{}-{}.replay", p.id, seed, f.family, f.case));
                    let ch: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
                    let mut o = std::fs::File::create(&path).expect("replay");
                    let _ = write!(
                        o,
                        "property={}\nfamily={}\ncase={}\nseed={}\nshrunk: {} -> {} choices in {} runs\nchoices={}\n\nWHAT FAILED\n{}\n\nREPRODUCTION\n{}\n",
                        p.id,
                        f.family,
                        f.case,
                        f.seed,
                        f.original_len,
                        f.choices.len(),
                        f.shrink_runs,
                        ch.join(","),
                        f.failure.msg,
                        f.failure.repro
                    );
                    write_evidence(&verif, p, if thorough { "thorough" } else { "quick" }, seed, &st, wall, 1, &[]);
                    println!("{}", tool::clip(&f.failure.msg, 3000));
                    println!("{}", tool::clip(&f.failure.repro, 4000));
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    1
                }
                Outcome::Error(e) => {
                    eprintln!("{}: check could not decide: {}", p.id, e);
                    2
                }
            }
        }
        "replay" => {
            let s = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
            let id = get("property");
            let choices: Vec<u64> = get("choices").split(',').filter_map(|c| c.parse().ok()).collect();
            let all = props::all();
            let p = all.iter().find(|p| p.id == id).expect("property");
            match replay(p, &get("family"), choices) {
                Ok(c) => {
                    println!("no longer fails: {}", c.key);
                    0
                }
                Err(Stop::Fail(f)) => {
                    println!("{}\n{}", f.msg, f.repro);
                    println!("VIOLATION property={} replay={}", id, args[2]);
                    1
                }
                Err(Stop::Error(e)) => {
                    eprintln!("{}", e);
                    2
                }
            }
        }
        _ => 2,
    }
}

fn main() {
    let r = real_main();
    std::process::exit(r);
}
