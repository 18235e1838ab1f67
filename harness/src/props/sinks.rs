//! C29: results and messages whose destination fails.
use super::cmds::{canon, job, job_repro, sources, write_all, Job};
use super::text;
use crate::engine::*;
use crate::img;
use crate::tool::*;
use std::path::Path;

fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| y.to_string()).collect()
}

/// A command that prints its result.
fn printing(src: &mut Src) -> Job {
    match src.below(3) {
        0 => {
            let damage = src.chance(1, 6);
            let mut f = sources(src, damage);
            if src.chance(1, 4) {
                let n = src.usize(4000);
                let more: String = (0..n).map(|i| format!("  .byte {}, {}\n", i % 256, i * 7 % 256)).collect();
                f[0].1.extend_from_slice(b"\n");
                f[0].1.extend_from_slice(more.as_bytes());
            }
            Job { files: f, args: strs(&["expand", "in/main.s"]), out: None, kind: "expand" }
        }
        1 => {
            let p = text::icon_pic(src);
            let (x, mut d) = img::store(src, &p);
            if src.chance(1, 8) {
                d.truncate(20);
            }
            let n = format!("in/i.{}", x);
            let mut a = strs(&["icon", &n]);
            let mut files = vec![(n, d)];
            if src.chance(1, 4) {
                let e = text::eye_pic(src);
                let (x, d) = img::store(src, &e);
                let n = format!("in/e.{}", x);
                a.extend(strs(&["-e", &n]));
                files.push((n, d));
            }
            Job { files, args: a, out: None, kind: "icon" }
        }
        _ => {
            let p = text::sprite_pic(src, 60);
            let (x, mut d) = img::store(src, &p);
            if src.chance(1, 8) {
                d.truncate(20);
            }
            let n = format!("in/i.{}", x);
            let a = strs(&["image", &n, "-f", *src.pick(&["json", "json-pretty", "1bit-asm", "1bit-asm-masked"])]);
            Job { files: vec![(n, d)], args: a, out: None, kind: "image" }
        }
    }
}

/// How much fits of `n` bytes.
fn room(src: &mut Src, n: usize) -> usize {
    match src.below(8) {
        0 => n,
        1 => n + 1 + src.usize(5000),
        2 => n.saturating_sub(1),
        3 => 0,
        4 => 1.min(n),
        5 => (*src.pick(&[1024usize, 4096, 8192])).min(n.saturating_sub(1)),
        _ => src.usize(n.max(1)),
    }
}

fn c29_printed(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let j = printing(src);
    write_all(ctx, "", &j.files);
    let wb = WB.get().unwrap().clone();
    let dir = ctx.dir.clone();
    let a: Vec<&str> = j.args.iter().map(|s| s.as_str()).collect();
    let rp = job_repro(&j);
    let whole = run_limited(&wb, &dir, &a)?;
    let mut n = 1;
    let mut labels = vec![j.kind];
    let mut sinks = vec![(Sink::Full, None, "standard output on a full device".to_string()), (Sink::Unread, None, "standard output into a pipe nobody reads".to_string())];
    let to = ctx.path("printed.txt");
    for _ in 0..2 {
        let k = room(src, whole.out.len());
        sinks.push((Sink::File(to.clone()), Some(k), format!("standard output into a file with room for {} of {} bytes", k, whole.out.len())));
    }
    for (sink, limit, how) in &sinks {
        let r = run_sinks(&wb, &dir, &a, &[], sink, &Sink::Kept, limit.map(|k| k as u64))?;
        n += 1;
        let got = match sink {
            Sink::File(p) => std::fs::read(p).unwrap_or_default(),
            _ => vec![],
        };
        if !whole.ok() {
            if !r.rejected() {
                return fail(format!("{}: {}, but otherwise {}", how, r.how(), whole.how()), rp);
            }
            labels.push("input-error");
            continue;
        }
        let fits = match limit {
            Some(k) => *k >= whole.out.len(),
            None => whole.out.is_empty(),
        };
        if fits {
            if !r.ok() || canon(&got) != canon(&whole.out) {
                return fail(format!("{}: {}, {} bytes arrived {}", how, r.how(), got.len(), clip(&r.err, 300)), rp);
            }
            labels.push("fits");
        } else {
            if !r.rejected() {
                return fail(format!("{}: not all of the result can be written, yet {}", how, r.how()), rp);
            }
            if r.err.trim().is_empty() {
                return fail(format!("{}: exit status 1 without a message", how), rp);
            }
            labels.push(if *limit == Some(0) || limit.is_none() { "nothing-written" } else { "part-written" });
        }
    }
    labels.sort();
    labels.dedup();
    okn(whole.ok(), rp, labels, n)
}

/// Output files that stop growing.
fn c29_files(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut j = job(src);
    let mut guard = 0;
    while (j.out.is_none() || j.kind == "other") && guard < 20 {
        j = job(src);
        guard += 1;
    }
    let out = match &j.out {
        Some(o) => o.clone(),
        None => return ok(false, "no output file", vec![]),
    };
    write_all(ctx, "", &j.files);
    let wb = WB.get().unwrap().clone();
    let dir = ctx.dir.clone();
    let shim = clock_shim()?;
    let env = [("LD_PRELOAD", shim.as_str()), ("WB_FAKE_TIME", "1700000000"), ("TZ", "UTC0")];
    let env: &[(&str, &str)] = if j.kind == "vmi" { &env } else { &[] };
    let a: Vec<&str> = j.args.iter().map(|s| s.as_str()).collect();
    let rp = job_repro(&j);
    let whole = run_env(&wb, &dir, &a, env)?;
    let file = ctx.read(&out);
    let mut labels = vec![j.kind];
    let mut n = 1;
    let full = match (&file, whole.ok()) {
        (Some(f), true) => f.clone(),
        (None, true) => return fail("success without an output file", rp),
        _ => {
            labels.push("input-error");
            vec![]
        }
    };
    for _ in 0..3 {
        let k = room(src, full.len());
        ctx.remove(&out);
        let before = src.chance(1, 3);
        if before && whole.ok() {
            ctx.write(&out, b"an earlier file");
        }
        let r = run_sinks(&wb, &dir, &a, env, &Sink::Kept, &Sink::Kept, Some(k as u64))?;
        n += 1;
        let got = ctx.read(&out);
        let how = format!("files can grow to {} bytes, the output has {}", k, full.len());
        if !whole.ok() {
            if (r.code, r.signal) != (whole.code, whole.signal) || got.is_some() {
                return fail(format!("{}: {} instead of {}; output file: {}", how, r.how(), whole.how(), got.is_some()), rp);
            }
        } else if k >= full.len() {
            if !r.ok() || got.as_deref() != Some(&full[..]) {
                return fail(format!("{}: {}, {:?} bytes written", how, r.how(), got.map(|g| g.len())), rp);
            }
            labels.push("fits");
        } else {
            if !r.rejected() || r.err.trim().is_empty() {
                return fail(format!("{}: {} {:?}, {:?} bytes written", how, r.how(), clip(&r.err, 200), got.map(|g| g.len())), rp);
            }
            labels.push("part-written");
        }
    }
    labels.sort();
    labels.dedup();
    okn(whole.ok(), rp, labels, n)
}

/// Messages nobody can see.
fn c29_messages(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut j = match src.below(5) {
        0 => {
            // a file found beside the working directory only, which is warned about
            let deep = *src.pick(&["in/", "in/a/"]);
            let what = src.below(3);
            let (line, name, data): (&str, &str, &[u8]) = match what {
                0 => (".include \"w.s\"", "w.s", b"  .byte 7\n"),
                1 => (".include bytes \"w.bin\"", "w.bin", b"\x01\x02"),
                _ => (".include cpp \"w.h\"", "w.h", b"#define W 5\n"),
            };
            let t = format!("  .byte 1\n  {}\n  .byte {}\n", line, if src.chance(1, 6) { "300" } else { "3" });
            let main = format!("{}main.s", deep);
            let mut a = vec![src.pick(&["assemble", "expand"]).to_string(), main.clone()];
            let out = a[0] == "assemble";
            if out {
                a.extend(strs(&["-o", "out.vms"]));
            }
            Job { files: vec![(main, t.into_bytes()), (name.to_string(), data.to_vec())], args: a, out: if out { Some("out.vms".into()) } else { None }, kind: "warned" }
        }
        1 => printing(src),
        _ => job(src),
    };
    // what an unknown command line gets told is clap's affair
    if j.kind == "other" && !["assemble", "disassemble", "icon", "vmi", "version"].contains(&j.args.first().map(|s| s.as_str()).unwrap_or("version")) {
        j.args = strs(&["assemble", "in/none.s", "-o", "out.vms"]);
        j.out = Some("out.vms".into());
    }
    write_all(ctx, "", &j.files);
    let wb = WB.get().unwrap().clone();
    let dir = ctx.dir.clone();
    let shim = clock_shim()?;
    let env = [("LD_PRELOAD", shim.as_str()), ("WB_FAKE_TIME", "1700000000"), ("TZ", "UTC0")];
    let env: &[(&str, &str)] = if j.kind == "vmi" { &env } else { &[] };
    let rp = job_repro(&j);
    let a: Vec<&str> = j.args.iter().map(|s| s.as_str()).collect();
    let file = |dir: &Path| j.out.as_ref().and_then(|o| std::fs::read(dir.join(o)).ok());
    let first = run_env(&wb, &dir, &a, env)?;
    let made = file(&dir);
    for (s, how) in [(Sink::Full, "on a full device"), (Sink::Unread, "into a pipe nobody reads")] {
        if let Some(o) = &j.out {
            let _ = std::fs::remove_file(dir.join(o));
        }
        let r = run_sinks(&wb, &dir, &a, env, &Sink::Kept, &s, None)?;
        if (r.code, r.signal) != (first.code, first.signal) {
            return fail(format!("messages {}: {}, otherwise {}", how, r.how(), first.how()), rp);
        }
        if canon(&r.out) != canon(&first.out) {
            return fail(format!("messages {}: another result on standard output ({} and {} bytes)", how, r.out.len(), first.out.len()), rp);
        }
        if file(&dir) != made {
            return fail(format!("messages {}: another output file", how), rp);
        }
    }
    let said = !first.err.trim().is_empty();
    okn(said, rp, vec![j.kind, if first.ok() { "success" } else { "failure" }, if said { "messages" } else { "silent" }], 3)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C29",
        rule: "printed: expand, icon and image commands with standard output on a full device, in a pipe nobody reads and in files with room for none, some, all but one or all of the bytes, compared with the result printed normally. files: assemble, disassemble, image and vmi with output files that stop growing at any size. messages: commands of every kind, also such as only warn, with standard error on a full device and in a pipe nobody reads; exit status, standard output and output file compared with a normal run. Non-trivial: the command succeeds normally (printed, files); it has something to say (messages).",
        families: vec![
            Family { name: "printed", run: c29_printed, quick: 2000, thorough: 20000, sweep: None },
            Family { name: "files", run: c29_files, quick: 1500, thorough: 15000, sweep: None },
            Family { name: "messages", run: c29_messages, quick: 2000, thorough: 20000, sweep: None },
        ],
        assumptions: &["a file system that fills up is stood in for by the limit on the size of files (RLIMIT_FSIZE, its signal ignored) and by /dev/full", "what a failed write leaves in the output file is not judged"],
    }]
}
