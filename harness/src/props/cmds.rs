//! C20 output files, C25 VMI files, C26 same input same output, C27 the C entry point.
use super::lang::want_of;
use super::text;
use super::{dis, fuzz, macros};
use crate::engine::*;
use crate::gen;
use crate::img;
use crate::model::*;
use crate::tool::*;
use std::collections::BTreeMap;
use std::path::Path;

// ------------------------------------------------------------------------ C25

/// (year, month, day, hour, minute, second, weekday with Sunday 0)
fn civil(t: i64) -> [i64; 7] {
    let days = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let mut y = 1970;
    let mut d = days;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < 0 {
            y -= 1;
            d += if leap(y) { 366 } else { 365 };
        } else if d >= n {
            d -= n;
            y += 1;
        } else {
            break;
        }
    }
    let mut m = 0;
    let lens = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    while d >= lens[m] {
        d -= lens[m];
        m += 1;
    }
    [y, m as i64 + 1, d + 1, s / 3600, s / 60 % 60, s % 60, (days + 4).rem_euclid(7)]
}

fn stamp(t: i64) -> Vec<u8> {
    let c = civil(t);
    let mut v = (c[0] as u16).to_le_bytes().to_vec();
    v.extend(c[1..].iter().map(|x| *x as u8));
    v
}

fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

fn moment(src: &mut Src) -> i64 {
    match src.below(5) {
        0 => *src.pick(&[
            0i64, 951782400, 951825600, 951868799, 951868800, 1077926400, 1709164800, 1709251199, 1709251200, 2147483647, 2147483648, 4102444799, 4107542399, 4107542400, 1704067199, 1704067200, 1230768000, 946684799, 946684800, 1893455999,
        ]),
        1 => {
            // the last and first second of a day
            src.range(0, 60000) * 86400 - src.range(0, 1).min(1)
        }
        _ => src.range(0, 5_000_000_000),
    }
    .max(0)
}

fn c25(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let game = src.bool();
    let off = if game { 0x200usize } else { 0 };
    let n = match src.below(8) {
        0 => off + 0x30,
        1 => off + 0x30 + src.usize(4),
        2 => *src.pick(&[0x200usize, 0x230, 512 * 200, 65535, 65536, 65537, 131072, 0x10203]).max(&(off + 0x30)),
        3 => off + *src.pick(&[0x2Fusize, 0x10, 0x20, 0]),
        _ => off + 0x30 + src.usize(0x800),
    };
    let mut st = src.below(1 << 30);
    let style = src.below(3);
    let b: Vec<u8> = (0..n)
        .map(|i| {
            st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            match style {
                0 => (st >> 40) as u8,
                1 => b'A' + (i % 53) as u8,
                _ => (i % 251) as u8,
            }
        })
        .collect();
    let stem = match src.below(5) {
        0 => src
            .pick(&["a", "SAVE", "SAVEGAME", "SAVEGAMES", "abcdefghijkl", "abcdefghijklm", "averyveryverylongname", "ünï", "日本語日本語", "x y", "vms", "a.vms.b", ".vms", "s", "SEGA", "sega", "GAME.TXT", "~", "@@@@", "Zz9", "a.vms"])
            .to_string(),
        _ => {
            let n = 1 + src.usize(15);
            (0..n).map(|_| *src.pick(&['S', 'E', 'G', 'A', 's', 'e', 'g', 'a', '0', '9', '_', '-', ' ', '.', 'é', 'Z', '~', '!', 'm'])).collect::<String>()
        }
    };
    let stem = if stem.starts_with('-') || stem == "." || stem == ".." { format!("x{}", stem) } else { stem };
    let vms = src.chance(4, 5);
    // an extension other than .vms: what the resource name is, is not stated
    let other = stem.contains('.') && !vms;
    let name = if vms { format!("{}.vms", stem) } else { stem.clone() };
    let dir = *src.pick(&["", "", "", "d/", "./", "a.vms/", "d e/f/", "a/b/c/d/", "a.b/c.vms/é/", "d/../e/", "//"]);
    let dir = match dir {
        "//" => format!("{}{}", ctx.dir.display(), src.pick(&["/", "/x/y/", "//z/"])),
        d => d.to_string(),
    };
    let path = format!("{}{}", dir, name);
    ctx.write(&path, &b);
    let copyright = match src.below(5) {
        0 => None,
        1 => Some(src.pick(&["", "(c) me", "a copyright of exactly 32 bytes!", "a copyright of exactly 33 bytes!!", "ünïcödé ünïcödé ünïcödé ünïcödé ünïcödé", "日本語日本語日本語日本語日本語", "x"]).to_string()),
        _ => {
            let n = src.usize(40);
            let s: String = (0..n).map(|_| *src.pick(&['a', 'b', 'Z', ' ', '9', 'é', '.', '(', ')', '-', '1'])).collect();
            if s.starts_with('-') {
                None
            } else {
                Some(s)
            }
        }
    };
    let mut opts: Vec<Vec<String>> = vec![vec![path.clone()]];
    if game {
        opts.push(vec![src.pick(&["-g", "--game"]).to_string()]);
    }
    if let Some(c) = &copyright {
        opts.push(match src.below(2) {
            1 => vec![src.pick(&["-c", "--copyright"]).to_string(), c.clone()],
            _ if c.is_empty() => vec!["-c".to_string(), c.clone()],
            _ => vec![format!("--copyright={}", c)],
        });
    }
    let given = !vms || src.bool();
    let out = if given {
        let o = src.pick(&["o.vmi", "out", "ö.vmi", "./x.vms", "d2.bin"]).to_string();
        opts.push(vec![src.pick(&["-o", "--output"]).to_string(), o.clone()]);
        o
    } else {
        format!("{}{}.vmi", dir, stem)
    };
    src.shuffle(&mut opts);
    let mut args = vec!["vmi".to_string()];
    args.extend(opts.into_iter().flatten());
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let before = src.chance(1, 3);
    if before {
        let k = *src.pick(&[0usize, 50, 108, 300]);
        ctx.write(&out, &vec![0x55u8; k]);
    }
    let t = moment(src);
    let half_hours = src.range(-24, 28);
    let tz = format!("XYZ{}{}:{:02}", if half_hours > 0 { "-" } else { "" }, half_hours.abs() / 2, half_hours.abs() % 2 * 30);
    let tt = format!("{}", t);
    let shim = clock_shim()?;
    let wb = WB.get().unwrap().clone();
    let t0 = now();
    let r = run_env(&wb, &ctx.dir.clone(), &a, &[("LD_PRELOAD", &shim), ("WB_FAKE_TIME", &tt), ("TZ", &tz)])?;
    let t1 = now();
    let got = ctx.read(&out);
    let rp = format!("--- file {} ({} bytes)\n{}\n--- command (clock at {} s since 1970, TZ={})\nwaterbear {:?}\n", path, n, hex(&b), t, tz, args);
    if n < off + 0x30 {
        if !r.rejected() || r.err.trim().is_empty() || (got.is_some() && !before) {
            return fail(format!("a VMS file without room for the header: {}, output written: {}", r.how(), got.is_some()), rp);
        }
        return ok(true, format!("{:?} {} bytes", args, n), vec!["too-short"]);
    }
    if !r.ok() {
        return fail(format!("vmi failed: {} {}", r.how(), clip(&r.err, 300)), rp);
    }
    let got = match got {
        Some(g) => g,
        None => return fail(format!("no file {} was written", out), rp),
    };
    let mut w = vec![0u8; 108];
    let base = stem.as_bytes();
    for i in 0..8.min(base.len()) {
        w[0x50 + i] = base[i];
    }
    for i in 0..12.min(name.len()) {
        w[0x58 + i] = name.as_bytes()[i];
    }
    if other && got.len() == w.len() {
        w[0x50..0x64].copy_from_slice(&got[0x50..0x64]);
    }
    for i in 0..4 {
        w[i] = w[0x50 + i] & b"SEGA"[i];
    }
    w[4..0x24].copy_from_slice(&b[off + 0x10..off + 0x30]);
    let c = copyright.clone().unwrap_or_default();
    for i in 0..32.min(c.len()) {
        w[0x24 + i] = c.as_bytes()[i];
    }
    w[0x4C..0x4E].copy_from_slice(&[0, 0]);
    w[0x4E] = 1;
    if game {
        w[0x64] = 2;
    }
    w[0x68..0x6C].copy_from_slice(&(n as u32).to_le_bytes());
    let zone = half_hours * 1800;
    let mut times: Vec<Vec<u8>> = vec![stamp(t + zone)];
    // should the clock be read in a way the stand-in does not see
    times.extend((t0..=t1).map(|x| stamp(x + zone)));
    let fine = times.iter().any(|s| {
        w[0x44..0x4C].copy_from_slice(s);
        w == got
    });
    if !fine {
        w[0x44..0x4C].copy_from_slice(&times[0]);
        let at = got.iter().zip(w.iter()).position(|(x, y)| x != y);
        return fail(format!("VMI file wrong, first at offset {:02x?} (length {}):\n  expected {}\n  got      {}", at, got.len(), hex(&w), hex(&got)), rp);
    }
    ok(true, format!("{:?} {} bytes at {} {}", args, n, t, tz), vec![if game { "game" } else { "data" }, if given { "given-name" } else { "default-name" }])
}

// --------------------------------------------------------------------- inputs

#[derive(Clone)]
pub struct Job {
    pub files: Vec<(String, Vec<u8>)>,
    pub args: Vec<String>,
    /// output file, if the command writes one
    pub out: Option<String>,
    pub kind: &'static str,
}

fn short_prog(src: &mut Src) -> text::Bundle {
    text::bundle(src, 2)
}

/// Some assembly sources in `in/`, main in in/main.s; valid mostly, or damaged.
pub fn sources(src: &mut Src, damage: bool) -> Vec<(String, Vec<u8>)> {
    let b = short_prog(src);
    let mut f = text::single_file(src, &b);
    if damage {
        let m = String::from_utf8_lossy(&f[0].1).to_string();
        f[0].1 = fuzz::tame(fuzz::mutate(src, &m));
    }
    f
}

pub fn code_file(src: &mut Src) -> (String, Vec<u8>) {
    let bios = src.chance(1, 3);
    let mut c = dis::image(src, bios);
    if src.chance(1, 6) && !c.is_empty() {
        let at = src.usize(c.len());
        c[at] = src.below(256) as u8;
    }
    c.truncate(6000);
    ("in/code.vms".to_string(), c)
}

pub fn job(src: &mut Src) -> Job {
    let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<String>>();
    match src.weighted(&[4, 4, 3, 2, 2, 1, 1]) {
        0 => Job { files: sources(src, false), args: s(&["assemble", "in/main.s", "-o", "out.vms"]), out: Some("out.vms".into()), kind: "assemble" },
        1 => {
            let f = sources(src, true);
            let a = if src.bool() { s(&["assemble", "in/main.s", "-o", "out.vms"]) } else { s(&["expand", "in/main.s"]) };
            Job { files: f, out: if a[0] == "assemble" { Some("out.vms".into()) } else { None }, args: a, kind: "damaged" }
        }
        2 => {
            let f = code_file(src);
            let mut a = s(&["disassemble", "in/code.vms", "-o", "out.s"]);
            if src.bool() {
                a.push("-p".into());
            }
            if src.bool() {
                a.push("-a".into());
            }
            if src.bool() {
                a.push("-t".into());
                a.push(src.pick(&["game", "bios", "file", "raw", "other"]).to_string());
            }
            Job { files: vec![f], args: a, out: Some("out.s".into()), kind: "disassemble" }
        }
        3 => {
            let damage = src.chance(1, 4);
            let mut f = sources(src, damage);
            if src.chance(1, 10) {
                f.clear();
            }
            Job { files: f, args: s(&["expand", "in/main.s"]), out: None, kind: "expand" }
        }
        4 => {
            let p = if src.bool() { text::icon_pic(src) } else { text::sprite_pic(src, 40) };
            let (x, mut d) = img::store(src, &p);
            if src.chance(1, 6) {
                let at = src.usize(d.len());
                d[at] ^= 1 << src.below(8);
            }
            let n = format!("in/i.{}", x);
            let mut files = vec![(n.clone(), d)];
            if src.bool() {
                let mut a = s(&["icon"]);
                a.push(n);
                if src.bool() {
                    a.push("-s".into());
                    a.push(format!("{}", src.range(0, 65535)));
                }
                if src.chance(1, 3) {
                    let e = text::eye_pic(src);
                    let (x, d) = img::store(src, &e);
                    a.push("-e".into());
                    a.push(format!("in/e.{}", x));
                    files.push((format!("in/e.{}", x), d));
                }
                Job { files, args: a, out: None, kind: "icon" }
            } else {
                let mut a = s(&["image"]);
                a.push(n);
                if src.chance(3, 4) {
                    a.push("-f".into());
                    a.push(src.pick(&["json", "json-pretty", "1bit-asm", "1bit-asm-masked"]).to_string());
                }
                let o = src.bool();
                if o {
                    a.push("-o".into());
                    a.push("out.txt".into());
                }
                Job { files, args: a, out: if o { Some("out.txt".into()) } else { None }, kind: "image" }
            }
        }
        5 => {
            let n = *src.pick(&[0x30usize, 0x230, 0x400, 0x20]);
            let b: Vec<u8> = (0..n).map(|i| (i * 11) as u8).collect();
            let mut a = s(&["vmi", "in/a.vms"]);
            if src.bool() {
                a.push("-g".into());
            }
            if src.bool() {
                a.extend(s(&["-c", "someone"]));
            }
            Job { files: vec![("in/a.vms".into(), b)], args: a, out: Some("in/a.vmi".into()), kind: "vmi" }
        }
        _ => {
            let a = match src.below(14) {
                0 => s(&["version"]),
                1 => s(&[]),
                2 => s(&["--version"]),
                3 => s(&["--help"]),
                4 => s(&["assemble"]),
                5 => s(&["assemble", "in/main.s"]),
                6 => s(&["nonsense"]),
                7 => s(&["disassemble", "in/none.vms", "-o", "out.s"]),
                8 => s(&["assemble", "in/none.s", "-o", "out.vms"]),
                9 => s(&["help", "vmi"]),
                10 => s(&["icon", "in/none.png", "-s", "x"]),
                11 => s(&["expand", "in/main.s", "extra"]),
                12 => s(&["vmi", "in/none.vms"]),
                _ => s(&["assemble", "in/main.s", "-o", "nodir/out.vms"]),
            };
            let out = a.last().filter(|x| x.starts_with("out")).cloned();
            Job { files: vec![("in/main.s".into(), b" nop\n".to_vec())], args: a, out, kind: "other" }
        }
    }
}

pub fn write_all(ctx: &mut Ctx, under: &str, files: &[(String, Vec<u8>)]) {
    for (n, d) in files {
        ctx.write(&format!("{}{}", under, n), d);
    }
}

/// Everything below a directory, by relative name.
fn snapshot(dir: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(base: &Path, d: &Path, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let n = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
                if p.is_dir() {
                    m.insert(n, None);
                    walk(base, &p, m);
                } else {
                    m.insert(n, std::fs::read(&p).ok());
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, dir, &mut m);
    m
}

/// The unique suffixes of hygienic labels, numbered in order of appearance.
pub fn canon(b: &[u8]) -> Vec<u8> {
    let mut seen: Vec<Vec<u8>> = vec![];
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'_' && i + 33 <= b.len() && b[i + 1..i + 33].iter().all(|c| c.is_ascii_hexdigit() && !c.is_ascii_uppercase()) {
            let id = b[i + 1..i + 33].to_vec();
            let k = match seen.iter().position(|s| *s == id) {
                Some(k) => k,
                None => {
                    seen.push(id);
                    seen.len() - 1
                }
            };
            o.extend(format!("_<{}>", k).bytes());
            i += 33;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// The absolute name of the directory a command was started from, made neutral.
fn placeless(b: &[u8], cwd: &Path) -> Vec<u8> {
    match std::str::from_utf8(b) {
        Ok(s) => s.replace(&cwd.display().to_string(), "<dir>").into_bytes(),
        Err(_) => b.to_vec(),
    }
}

#[derive(PartialEq, Clone, Debug)]
struct Seen {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
    file: Option<Vec<u8>>,
}

fn diff(a: &Seen, b: &Seen) -> String {
    if (a.code, a.signal) != (b.code, b.signal) {
        return format!("exit status {:?}/{:?} and {:?}/{:?}\n  {}\n  {}", a.code, a.signal, b.code, b.signal, clip(&String::from_utf8_lossy(&a.err), 300), clip(&String::from_utf8_lossy(&b.err), 300));
    }
    let text = |x: &[u8]| String::from_utf8_lossy(x).to_string();
    for (what, x, y) in [("standard output", &a.out, &b.out), ("messages", &a.err, &b.err)] {
        if x != y {
            let (x, y) = (text(x), text(y));
            let (l, m) = x.lines().zip(y.lines()).find(|(p, q)| p != q).unwrap_or(("(one is longer)", ""));
            return format!("{} differ:\n  {}\n  {}", what, clip(l, 500), clip(m, 500));
        }
    }
    match (&a.file, &b.file) {
        (Some(x), Some(y)) => {
            let at = x.iter().zip(y.iter()).position(|(p, q)| p != q);
            format!("output files differ: {} and {} bytes, first difference at {:?}", x.len(), y.len(), at)
        }
        (x, y) => format!("output file present: {} and {}", x.is_some(), y.is_some()),
    }
}

/// Without colour sequences and carriage returns (a terminal adds them to line feeds).
fn colourless(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            let n = b[i + 2..].iter().take_while(|c| c.is_ascii_digit() || **c == b';').count();
            if b.get(i + 2 + n) == Some(&b'm') {
                i += n + 3;
                continue;
            }
        }
        if b[i] != b'\r' {
            o.push(b[i]);
        }
        i += 1;
    }
    o
}

pub fn job_repro(j: &Job) -> String {
    let f: Vec<(String, Vec<u8>)> = j.files.iter().map(|(n, d)| (n.clone(), if d.len() > 5000 { d[..5000].to_vec() } else { d.clone() })).collect();
    repro_files(&f, &format!("waterbear {}", j.args.join(" ")))
}

fn run_job(ctx: &mut Ctx, bin: &Path, cwd: &Path, j: &Job, env: &[(&str, &str)]) -> Result<Seen, Stop> {
    let out = j.out.as_ref().map(|o| cwd.join(o));
    if let Some(o) = &out {
        let _ = std::fs::remove_file(o);
    }
    let a: Vec<&str> = j.args.iter().map(|s| s.as_str()).collect();
    let _ = ctx;
    let r = run_env(bin, cwd, &a, env)?;
    // The argument parser (clap) goes through its own tables in no fixed order: of
    // several things wrong with a command line it may name any.
    let err = if r.code == Some(1) && r.err.starts_with("error: ") { b"error: (command line)".to_vec() } else { canon(r.err.as_bytes()) };
    Ok(Seen { code: r.code, signal: r.signal, out: placeless(&canon(&r.out), cwd), err: placeless(&err, cwd), file: out.and_then(|o| std::fs::read(o).ok()) })
}

// ------------------------------------------------------------------------ C26

fn c26(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let j = job(src);
    let not_text = format!("d{}r/", raw_byte(0xff));
    let there = *src.pick(&["elsewhere/", "a/b/c/", "x y/", "ü/", not_text.as_str(), "line\nbreak/"]);
    let start = src.below(2);
    let pwd = src.below(7);
    let tty = src.below(3);
    let mut coloured = false;
    write_all(ctx, "", &j.files);
    let wb = WB.get().unwrap().clone();
    let dir = ctx.dir.clone();
    let shim = clock_shim()?;
    let env = [("LD_PRELOAD", shim.as_str()), ("WB_FAKE_TIME", "1700000000"), ("TZ", "UTC0")];
    let env: &[(&str, &str)] = if j.kind == "vmi" { &env } else { &[] };
    let rp = job_repro(&j);
    let first = run_job(ctx, &wb, &dir, &j, env)?;
    let mut runs = 1;
    for _ in 0..2 {
        let again = run_job(ctx, &wb, &dir, &j, env)?;
        runs += 1;
        if again != first {
            return fail(format!("two runs of the same command differ: {}", diff(&first, &again)), rp);
        }
    }
    // PWD is what a shell leaves there; a program that changes its directory does not
    // update it, and other programs start without it
    {
        let decoys: Vec<(String, Vec<u8>)> = j.files.iter().map(|(n, d)| (n.clone(), if n.ends_with(".s") { b"  .byte 99\n".to_vec() } else { d.iter().rev().cloned().collect() })).collect();
        let decoy = ctx.path("decoy").display().to_string();
        let alias = dir.with_file_name(format!("alias-{}", dir.file_name().unwrap().to_string_lossy())).display().to_string();
        let v: String = match pwd {
            0 => UNSET.into(),
            1 => "no/such/directory".into(),
            2 => "/no/such/directory".into(),
            3 => "".into(),
            4 | 5 => {
                write_all(ctx, "decoy/", &decoys);
                if pwd == 4 { decoy } else { "decoy".into() }
            }
            _ => {
                let _ = std::os::unix::fs::symlink(&dir, &alias);
                alias.clone()
            }
        };
        let mut e = env.to_vec();
        e.push(("PWD", v.as_str()));
        let mut other = run_job(ctx, &wb, &dir, &j, &e)?;
        other.out = placeless(&other.out, Path::new(&alias));
        other.err = placeless(&other.err, Path::new(&alias));
        runs += 1;
        if pwd == 6 {
            let _ = std::fs::remove_file(&alias);
        }
        if other != first {
            return fail(format!("in the same directory, but with the environment variable PWD as {}, the same command gives a different result: {}", if v == UNSET { "unset" } else { &v }, diff(&first, &other)), rp);
        }
    }
    // on a terminal the messages are coloured, and otherwise the same
    if tty == 0 && j.kind != "other" {
        let mut e = env.to_vec();
        e.push(("TERM", "xterm-256color"));
        e.push(("NO_COLOR", UNSET));
        if let Some(o) = &j.out {
            let _ = std::fs::remove_file(dir.join(o));
        }
        let a: Vec<&str> = j.args.iter().map(|s| s.as_str()).collect();
        if let Some(r) = run_tty(&wb, &dir, &a, &e)? {
            runs += 1;
            coloured = r.err.contains('\u{1b}');
            let seen = Seen {
                code: r.code,
                signal: r.signal,
                out: placeless(&canon(&r.out), &dir),
                err: placeless(&canon(&colourless(r.err.as_bytes())), &dir),
                file: j.out.as_ref().and_then(|o| std::fs::read(dir.join(o)).ok()),
            };
            let mut want = first.clone();
            want.err = colourless(&want.err);
            if seen != want && want.err != b"error: (command line)" {
                return fail(format!("with the messages on a terminal the same command gives a different result: {}", diff(&want, &seen)), rp);
            }
        }
    }
    if !j.files.is_empty() {
        // the same tree in another place, started from the corresponding directory
        write_all(ctx, there, &j.files);
        let d2 = ctx.path(there.trim_end_matches('/'));
        let moved = run_job(ctx, &wb, &d2, &j, env)?;
        runs += 1;
        // the name of a directory with a line break in it cannot stand as it is in a comment
        let same = if there.contains('\n') { moved.code == first.code && moved.file == first.file } else { moved == first };
        let there = there.escape_debug();
        if !same {
            return fail(format!("the same files in directory {} give a different result: {}", there, diff(&first, &moved)), rp);
        }
    }
    // started from another directory, the input named from there
    if j.files.len() > 0 && j.args.len() > 1 && j.kind != "other" {
        let mut k = j.clone();
        let d3 = ctx.path("cwd/deep");
        let _ = std::fs::create_dir_all(&d3);
        let pre = if start == 0 { "../../".to_string() } else { format!("{}/", dir.display()) };
        for a in k.args.iter_mut().skip(1) {
            if a.starts_with("in/") {
                *a = format!("{}{}", pre, a);
            }
        }
        if j.kind == "vmi" {
            k.out = Some(format!("{}{}", pre, j.out.as_ref().unwrap()));
        }
        let away = run_job(ctx, &wb, &d3, &k, env)?;
        runs += 1;
        if away.code != first.code || away.file != first.file || (j.kind == "image" && away.out != first.out) {
            return fail(format!("started from directory cwd/deep with the input named {}in/..., the result differs: {}", pre, diff(&first, &away)), rp);
        }
    }
    let mut l = vec![j.kind, if first.code == Some(0) { "accepted" } else { "refused" }];
    if coloured {
        l.push("coloured");
    }
    okn(j.kind != "other", rp, l, runs)
}

// ------------------------------------------------------------------------ C27

fn c27(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut j = job(src);
    if src.chance(1, 8) {
        // an argument changed, lost or added
        let n = j.args.len();
        match src.below(3) {
            0 => j.args.push(src.pick(&["-x", "--", "extra", "-o", "", "ü", "-h", "日本語", "\u{f7ff}"]).to_string()),
            1 if n > 0 => {
                let at = src.usize(n);
                j.args.remove(at);
            }
            2 if n > 0 => {
                let at = src.usize(n);
                j.args[at] = src.pick(&["", "é", "-p", "--output", "in", "assemble", "in/\u{f7fe}.s", "o\u{f7c3}"]).to_string();
            }
            _ => {}
        }
        j.kind = "odd-arguments";
    }
    let wb = WB.get().unwrap().clone();
    let drv = c_driver()?;
    let shim = clock_shim()?;
    let env = [("LD_PRELOAD", shim.as_str()), ("WB_FAKE_TIME", "1700000000"), ("TZ", "UTC0")];
    let env: &[(&str, &str)] = if j.args.first().map(|a| a == "vmi").unwrap_or(false) { &env } else { &[] };
    let rp = job_repro(&j);
    let prior = src.chance(1, 4);
    let mut see = vec![];
    for bin in [&wb, &drv] {
        let _ = std::fs::remove_dir_all(&ctx.dir);
        std::fs::create_dir_all(&ctx.dir).expect("scratch");
        write_all(ctx, "", &j.files);
        let dir = ctx.dir.clone();
        if prior {
            ctx.write("out.vms", b"an earlier file that is longer than most of what comes after it ..............................");
            ctx.write("out.s", b"");
        }
        let mut k = j.clone();
        k.out = None;
        let s = run_job(ctx, bin, &dir, &k, env)?;
        see.push((s, snapshot(&dir)));
    }
    let (a, b) = (&see[0], &see[1]);
    if a.0 != b.0 {
        return fail(format!("the command line and the C entry point differ: {}", diff(&a.0, &b.0)), rp);
    }
    if a.1 != b.1 {
        let n: Vec<&String> = a.1.keys().chain(b.1.keys()).filter(|k| a.1.get(*k) != b.1.get(*k)).collect();
        return fail(format!("the command line and the C entry point leave different files: {:?}", n), rp);
    }
    ok(j.kind != "other", rp, vec![j.kind, if a.0.code == Some(0) { "accepted" } else { "refused" }])
}

// ------------------------------------------------------------------------ C20

#[derive(Clone, PartialEq, Debug)]
enum State {
    Absent,
    File(Vec<u8>),
    Dir,
}

fn state(p: &Path) -> State {
    if p.is_dir() {
        State::Dir
    } else {
        match std::fs::read(p) {
            Ok(b) => State::File(b),
            Err(_) => State::Absent,
        }
    }
}

/// A program with an error that shows at some stage, with everything before it fine.
fn broken(src: &mut Src) -> (Vec<(String, Vec<u8>)>, &'static str) {
    let o = gen::Opts { max_stmts: 12, ..Default::default() };
    let p = gen::program(src, &o);
    let mut lines: Vec<String> = crate::render::plain(&p).lines().map(|l| l.to_string()).collect();
    let bad: &[(&str, &str)] = &[
        ("  ld nosuchname_q", "unknown name"),
        ("  .byte 256", "byte range"),
        ("  .word 65536", "word range"),
        ("  mov #300, $100", "operand range"),
        ("  .byte 1/0", "division by zero"),
        ("  .byte (1", "syntax"),
        ("  frobnicate 1", "unknown instruction"),
        ("  ]", "lexing"),
        ("  .include \"no/such/file.s\"", "missing include"),
        ("  .include bytes \"no/such/file.bin\"", "missing bytes include"),
        ("  .include icon \"no.png\"", "missing image"),
        ("dup_q: nop\ndup_q: nop", "duplicate label"),
        ("%macro rec_q\n rec_q\n%end\n rec_q", "recursive macro"),
        ("  .byte 2147483647 + 1", "overflow"),
        ("  .text 2 \"abc\"", "text too long"),
        ("  brf 70000", "branch range"),
        ("  .org $10000", "origin"),
        ("  br $8000 + 5000", "branch far"),
    ];
    let (l, k) = *src.pick(bad);
    let at = match src.below(3) {
        0 => lines.len(),
        1 => 0,
        _ => src.usize(lines.len() + 1),
    };
    lines.insert(at, l.to_string());
    (vec![("in/main.s".to_string(), format!("{}\n", lines.join("\n")).into_bytes())], k)
}

fn c20(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let out = src.pick(&["out.vms", "out.vms", "o/deep/x.bin", "ö ut", "main.o"]).to_string();
    let shim = clock_shim()?;
    let wb = WB.get().unwrap().clone();
    let dir = ctx.dir.clone();
    let mut log: Vec<String> = vec![];
    let mut labels: Vec<&'static str> = vec![];
    // the state of the output path at the start
    let place = src.below(10);
    if out.contains('/') && place != 9 {
        ctx.write("o/deep/keep", b"k");
    }
    match place {
        0..=2 => {}
        3 => ctx.write(&out, b""),
        4 => ctx.write(&out, b"xy"),
        5 => ctx.write(&out, &vec![0xEE; 70000]),
        6 => {
            let _ = std::fs::create_dir_all(ctx.path(&out));
        }
        7 => {
            let _ = std::fs::create_dir_all(ctx.path(&out));
            ctx.write(&format!("{}/inner", out), b"i");
        }
        8 => ctx.write(&out, b"the same length as what may come"),
        _ => {} // o/deep may be missing
    }
    let steps = 1 + src.usize(4);
    let (mut wrote, mut refused) = (0, 0);
    for s in 0..steps {
        // the inputs of this step
        let ind = format!("s{}/", s);
        enum Want {
            Bytes(Vec<u8>),
            Fails,
            /// as another run of the same command into a fresh path
            AsFresh,
        }
        let (files, mut args, want, counted): (Vec<(String, Vec<u8>)>, Vec<String>, Want, bool) = match src.weighted(&[4, 5, 3, 2, 1, 1]) {
            0 => {
                let b = short_prog(src);
                let w = macros::want(&text::flat(&b));
                let f = text::single_file(src, &b);
                labels.push("assemble");
                (f, vec!["assemble".into(), format!("{}in/main.s", ind)], match w {
                    Ok(b) => Want::Bytes(b),
                    Err(_) => Want::Fails,
                }, true)
            }
            1 => {
                let (f, k) = broken(src);
                labels.push(k);
                (f, vec!["assemble".into(), format!("{}in/main.s", ind)], Want::Fails, true)
            }
            2 => {
                let bios = src.bool();
                let mut f = dis::image(src, bios);
                f.truncate(3000);
                match src.below(6) {
                    0 if f.len() > 0x60 => {
                        // a jump to an instruction that the end of the file cuts
                        let at = *src.pick(&[0usize, 3, 0xb, 0x4b]);
                        let end = f.len() - 1;
                        f[at..at + 3].copy_from_slice(&[0x21, (end >> 8) as u8, end as u8]);
                        f[end] = *src.pick(&[0x21u8, 0x10, 0x01, 0x80, 0x28, 0x03]);
                    }
                    1 => {
                        // hardly a file
                        let n = 1 + src.usize(4);
                        f = (0..n).map(|_| *src.pick(&[0x21u8, 0x10, 0xA0, 0x00, 0x01, 0x80, 0x28])).collect();
                    }
                    2 if f.len() > 0x60 => {
                        let at = *src.pick(&[0usize, 3, 0xb, 0x4b]);
                        f[at] = src.below(256) as u8;
                    }
                    _ => {}
                }
                let mut t = dis::trace(&f, dis::entries(bios));
                if t.as_ref().map(|t| t.ambiguous).unwrap_or(false) {
                    // whether all of it is followed is not specified
                    f = vec![0xA0; f.len()];
                    t = dis::trace(&f, dis::entries(bios));
                }
                labels.push("disassemble");
                let w = if t.is_ok() { Want::AsFresh } else { Want::Fails };
                let mut a: Vec<String> = vec!["disassemble".into(), format!("{}in/code", ind), "-t".into(), if bios { "bios" } else { "game" }.into()];
                if src.bool() {
                    a.push("-p".into());
                }
                (vec![("in/code".into(), f)], a, w, false)
            }
            3 => {
                let p = text::sprite_pic(src, 30);
                let (x, mut d) = img::store(src, &p);
                let n = format!("in/i.{}", x);
                let mut w = Want::AsFresh;
                if src.chance(1, 3) {
                    let k = src.usize(20.min(d.len()));
                    d.truncate(k);
                    w = Want::Fails;
                }
                labels.push("image");
                (vec![(n.clone(), d)], vec!["image".into(), format!("{}{}", ind, n), "-f".into(), src.pick(&["json", "1bit-asm", "1bit-asm-masked"]).to_string()], w, false)
            }
            4 => {
                let n = *src.pick(&[0x30usize, 0x400, 0x2F, 0]);
                labels.push("vmi");
                (vec![("in/a.vms".into(), vec![b'v'; n])], vec!["vmi".into(), format!("{}in/a.vms", ind)], if n >= 0x30 { Want::AsFresh } else { Want::Fails }, false)
            }
            _ => {
                labels.push("no input");
                (vec![], vec![src.pick(&["assemble", "disassemble", "image", "vmi"]).to_string(), format!("{}in/none.png", ind)], Want::Fails, false)
            }
        };
        write_all(ctx, &ind, &files);
        let env = [("LD_PRELOAD", shim.as_str()), ("WB_FAKE_TIME", "1600000000"), ("TZ", "UTC0")];
        let env: &[(&str, &str)] = if args[0] == "vmi" { &env } else { &[] };
        // an output that takes no bytes, or an odd path, now and then
        let odd: Option<&str> = if src.chance(1, 7) { Some(*src.pick(&["/dev/full", "no such dir/x", "", "o.d/"])) } else { None };
        if odd == Some("o.d/") {
            let _ = std::fs::create_dir_all(ctx.path("o.d"));
        }
        let want = match want {
            Want::AsFresh => {
                let mut a = args.clone();
                a.extend(["-o".to_string(), "fresh.tmp".to_string()]);
                let av: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
                let r = run_env(&wb, &dir, &av, env)?;
                let b = std::fs::read(dir.join("fresh.tmp")).ok();
                let _ = std::fs::remove_file(dir.join("fresh.tmp"));
                match (r.ok(), b) {
                    (true, Some(b)) if !b.is_empty() => Some(b),
                    (true, Some(b)) if args[0] == "disassemble" && files[0].1.is_empty() => Some(b),
                    (_, b) => return fail(format!("{:?} should succeed: {} {}, output of {:?} bytes", a, r.how(), clip(&r.err, 300), b.map(|b| b.len())), format!("{}{}\n", log.join(""), repro_files(&files, &a.join(" ")))),
                }
            }
            Want::Bytes(b) => Some(b),
            Want::Fails => None,
        };
        // no bytes fit on a full device
        let odd = if odd == Some("/dev/full") && want.as_ref().map(|b| b.is_empty()).unwrap_or(false) { None } else { odd };
        let target = odd.unwrap_or(&out).to_string();
        let opt = *src.pick(&["-o", "--output"]);
        if src.chance(1, 4) && !target.is_empty() {
            args.insert(1, format!("--output={}", target));
        } else {
            args.extend([opt.to_string(), target.clone()]);
        }
        let before = snapshot(&dir);
        let tpath = dir.join(&target);
        let was = if odd.is_some() { State::Absent } else { state(&tpath) };
        let writable = odd.is_none() && was != State::Dir && tpath.parent().map(|p| p.is_dir()).unwrap_or(false);
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let r = run_env(&wb, &dir, &a, env)?;
        let shown: Vec<(String, Vec<u8>)> = files.iter().map(|(n, d)| (format!("{}{}", ind, n), if d.len() > 3000 { d[..3000].to_vec() } else { d.clone() })).collect();
        log.push(format!("{}output path before: {}\n", repro_files(&shown, &format!("waterbear {}", args.join(" "))), match &was {
            State::Absent => "absent".to_string(),
            State::Dir => "a directory".to_string(),
            State::File(b) => format!("a file of {} bytes", b.len()),
        }));
        let rp = log.join("\n");
        let after = snapshot(&dir);
        let success = want.is_some() && writable;
        let mut expect = before.clone();
        if success {
            expect.insert(target.trim_start_matches("./").to_string(), want.clone());
        }
        if success && !r.ok() {
            return fail(format!("step {}: should succeed, {}: {}", s, r.how(), clip(&r.err, 400)), rp);
        }
        if !success && !r.rejected() {
            return fail(format!("step {}: should end with exit status 1 ({}), {}", s, if want.is_none() { "the input has an error" } else { "the output cannot be written" }, r.how()), rp);
        }
        if !success && r.err.trim().is_empty() {
            return fail(format!("step {}: exit status 1 without a message", s), rp);
        }
        if after != expect {
            let n: Vec<String> = after
                .keys()
                .chain(expect.keys())
                .filter(|k| after.get(*k) != expect.get(*k))
                .map(|k| {
                    let f = |m: &BTreeMap<String, Option<Vec<u8>>>| match m.get(k) {
                        None => "absent".to_string(),
                        Some(None) => "directory".to_string(),
                        Some(Some(b)) => format!("{} bytes", b.len()),
                    };
                    format!("{}: expected {}, is {} (before: {})", k, f(&expect), f(&after), f(&before))
                })
                .collect();
            return fail(format!("step {}: exit {:?}; files are not as they should be: {:?}", s, r.code, n), rp);
        }
        if success && counted {
            let n = want.as_ref().unwrap().len();
            let words: Vec<&str> = r.err.split(|c: char| !c.is_ascii_alphanumeric()).collect();
            if !words.contains(&n.to_string().as_str()) || !r.err.contains(&target) {
                return fail(format!("step {}: {} bytes written to {}, but it reported {:?}", s, n, target, r.err), rp);
            }
        }
        if success {
            wrote += 1;
        } else {
            refused += 1;
        }
        if !writable {
            labels.push(if odd == Some("/dev/full") { "device full" } else { "unwritable" });
        }
    }
    if wrote > 0 && refused > 0 {
        labels.push("mixed-history");
    }
    labels.sort();
    labels.dedup();
    okn(wrote + refused > 1 || place > 2, log.join("\n"), labels, steps as u64)
}

/// The output path is the input itself, or a file the input includes.
fn c20_onto_input(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let o = gen::Opts { max_stmts: 10, ..Default::default() };
    let p = gen::program(src, &o);
    let onto_main = src.bool();
    let mut p = p;
    if !onto_main {
        p.push(St::Data("  .include bytes \"d.bin\"".into(), vec![1, 2, 3]));
    }
    let mut t = crate::render::plain(&p);
    let bad = src.chance(1, 2);
    if bad {
        t.push_str("  .byte 300\n");
    }
    let mut files = vec![("main.s".to_string(), t.into_bytes())];
    let mut w: Result<Vec<u8>, String> = want_of(&reference(&p));
    if bad {
        w = Err("byte range".into());
    }
    let out = if onto_main {
        "main.s"
    } else {
        files.push(("d.bin".into(), vec![1, 2, 3]));
        "d.bin"
    };
    for (n, d) in &files {
        ctx.write(n, d);
    }
    let r = ctx.wb(&["assemble", "main.s", "-o", out])?;
    let rp = repro_files(&files, &format!("waterbear assemble main.s -o {}", out));
    let now = ctx.read(out).unwrap_or_default();
    let old = files.iter().find(|f| f.0 == out).unwrap().1.clone();
    match &w {
        Ok(b) if r.ok() && now == *b => {}
        Err(_) if r.rejected() && now == old => {}
        _ => return fail(format!("{}; {} now holds {} bytes: {}", r.how(), out, now.len(), hex(&now)), rp),
    }
    ok(true, rp, vec![if w.is_ok() { "onto-input-accepted" } else { "onto-input-refused" }])
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "histories of one to five runs on one output path: valid programs with resources, programs with one error of 18 kinds at any place, disassembly of valid and invalid files, image and vmi with good and bad input, missing inputs; the path starts absent, empty, shorter, longer, as a directory, in a missing directory; some runs write to a full device, a missing directory, the empty path. After every run the whole directory tree must be exactly as before plus, on success only, the complete output; plus runs whose output path is one of their own inputs. Non-trivial: more than one step, or the path existed before.",
            families: vec![
                Family { name: "histories", run: c20, quick: 3000, thorough: 40000, sweep: None },
                Family { name: "onto-input", run: c20_onto_input, quick: 800, thorough: 8000, sweep: None },
            ],
            assumptions: &["the checks run as root, so file permissions never stop a write; unwritable paths are directories, missing directories and /dev/full", "a failing write to an existing file is not judged for what it leaves"],
        },
        Property {
            id: "C25",
            rule: "VMS files of random contents and of sizes around the header limits and beyond 64 KiB, names of 1 to 16 characters (also multi-byte, dotted, in directories), copyright texts of 0 to 40 characters, -g and -o in any order and spelling, with the wall clock and the time zone set to random moments 1970 to 2128; all 108 bytes are compared, or the refusal of a file that is too short. Every case is non-trivial, but for the skipped names with another extension.",
            families: vec![Family { name: "fields", run: c25, quick: 7000, thorough: 80000, sweep: None }],
            assumptions: &["the clock is set by an LD_PRELOAD stand-in for clock_gettime, gettimeofday and time; should waterbear read the clock otherwise the real time of the run is accepted", "the resource name of a file with an extension other than .vms is not judged"],
        },
        Property {
            id: "C26",
            rule: "random commands of every kind on valid and damaged inputs: three fresh processes in the same place, one on a copy of the files in another place, one started from another directory, some with the messages on a pseudo-terminal; exit status, both output streams and the output file compared. Non-trivial: all but the fixed odd command lines.",
            families: vec![Family { name: "runs", run: c26, quick: 3500, thorough: 40000, sweep: None }],
            assumptions: &["the clock is held still for vmi", "names of the starting directory in printed text are made neutral before texts from different places are compared"],
        },
        Property {
            id: "C27",
            rule: "random commands of every kind on valid and damaged inputs, with odd argument vectors, run through the command line and through a C program linked with the static library (its argument array goes on after the given length); exit status, both streams and every file left behind compared. Non-trivial: all but the fixed odd command lines.",
            families: vec![Family { name: "commands", run: c27, quick: 5000, thorough: 60000, sweep: None }],
            assumptions: &["argument vectors without NUL bytes"],
        },
    ]
}
