//! Running the real waterbear binary in a scratch directory.
use crate::engine::Stop;
use std::fs;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn signal(signum: i32, handler: usize) -> usize;
    fn pipe2(fd: *mut i32, flags: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn wait4(pid: i32, status: *mut i32, options: i32, usage: *mut i64) -> i32;
    fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

pub static WB: OnceLock<PathBuf> = OnceLock::new();
pub static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

pub struct Ctx {
    pub dir: PathBuf,
    dirty: bool,
}

#[derive(Debug, Clone)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// used up a CPU-time limit thousands of times its normal cost, twice
    pub hang: bool,
    pub out: Vec<u8>,
    pub err: String,
}

impl Run {
    pub fn stdout(&self) -> String {
        String::from_utf8_lossy(&self.out).to_string()
    }
    /// exit 0 or 1: the tool ended on its own terms
    pub fn clean(&self) -> bool {
        !self.hang && matches!(self.code, Some(0) | Some(1))
    }
    pub fn ok(&self) -> bool {
        !self.hang && self.code == Some(0)
    }
    pub fn rejected(&self) -> bool {
        !self.hang && self.code == Some(1)
    }
    pub fn how(&self) -> String {
        if self.hang {
            return "hang (CPU-time limit exceeded twice)".into();
        }
        match (self.code, self.signal) {
            (Some(c), _) => {
                if c == 101 {
                    format!("exit 101 (panic): {}", clip(&self.err, 400))
                } else {
                    format!("exit {}", c)
                }
            }
            (None, Some(s)) => format!("killed by signal {}: {}", s, clip(&self.err, 400)),
            _ => "?".into(),
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

/// Show file content in a replay: as text when it is text, else as an escaped literal.
pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if !s.chars().any(|c| c.is_control() && c != '\n' && c != '\t') => s.to_string(),
        _ => format!("b\"{}\"", b.escape_ascii()),
    }
}

impl Ctx {
    pub fn new(t: usize) -> Ctx {
        let dir = SCRATCH.get().expect("scratch").join(format!("t{}", t));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("scratch dir");
        Ctx { dir, dirty: false }
    }
    pub fn reset(&mut self) {
        let used = self.dirty || fs::read_dir(&self.dir).map(|mut d| d.next().is_some()).unwrap_or(true);
        if used {
            let _ = fs::remove_dir_all(&self.dir);
            fs::create_dir_all(&self.dir).expect("scratch dir");
            self.dirty = false;
        }
    }
    pub fn path(&self, rel: &str) -> PathBuf {
        self.dir.join(raw(rel))
    }
    pub fn write(&mut self, rel: &str, data: &[u8]) {
        self.dirty = true;
        let p = self.path(rel);
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).expect("mkdir");
        }
        fs::write(&p, data).expect("write");
    }
    pub fn read(&self, rel: &str) -> Option<Vec<u8>> {
        fs::read(self.path(rel)).ok()
    }
    pub fn remove(&mut self, rel: &str) {
        let _ = fs::remove_file(self.path(rel));
    }
    pub fn wb(&mut self, args: &[&str]) -> Result<Run, Stop> {
        let d = self.dir.clone();
        self.wb_in(&d, args)
    }
    pub fn wb_in(&mut self, cwd: &Path, args: &[&str]) -> Result<Run, Stop> {
        self.dirty = true;
        let bin = WB.get().expect("binary").clone();
        run_limited(&bin, cwd, args)
    }
}

pub fn run_limited(bin: &Path, cwd: &Path, args: &[&str]) -> Result<Run, Stop> {
    run_env(bin, cwd, args, &[])
}

/// With further environment variables; argv[0] is always "waterbear".
pub fn run_env(bin: &Path, cwd: &Path, args: &[&str], env: &[(&str, &str)]) -> Result<Run, Stop> {
    let mut r = spawn(bin, cwd, args, env, 15)?;
    if r.hang {
        r = spawn(bin, cwd, args, env, 45)?;
    }
    Ok(r)
}

/// Environment that makes the wall clock stand at `t` (see harness/c/clock.c).
pub fn clock_shim() -> Result<String, Stop> {
    let t = std::env::var("WB_TARGET").unwrap_or("/verif/target".into());
    let p = format!("{}/clock.so", t);
    if !Path::new(&p).is_file() {
        return Err(Stop::Error(format!("no {}", p)));
    }
    Ok(p)
}

/// The C driver linked with the library.
pub fn c_driver() -> Result<PathBuf, Stop> {
    let t = std::env::var("WB_TARGET").unwrap_or("/verif/target".into());
    let p = PathBuf::from(format!("{}/capi/waterbear", t));
    if !p.is_file() {
        return Err(Stop::Error(format!("no {}", p.display())));
    }
    Ok(p)
}

/// As the value of an environment variable: remove it.
pub const UNSET: &str = "\u{f6ff}";

/// A character that stands for the raw byte `b` in an argument or path (see `raw`).
pub fn raw_byte(b: u8) -> char {
    char::from_u32(0xf700 + b as u32).unwrap()
}

/// Arguments are written as text; U+F700 + b stands for the byte b, which lets them hold bytes
/// that are not valid UTF-8.
pub fn raw(s: &str) -> OsString {
    let mut v = Vec::with_capacity(s.len());
    for c in s.chars() {
        let n = c as u32;
        if (0xf700..0xf800).contains(&n) {
            v.push((n - 0xf700) as u8);
        } else {
            v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    OsString::from_vec(v)
}

fn spawn(bin: &Path, cwd: &Path, args: &[&str], env: &[(&str, &str)], cpu: u64) -> Result<Run, Stop> {
    let mut c = command(bin, cwd, args, env, cpu);
    c.stderr(Stdio::piped());
    let o = c.output().map_err(|e| Stop::Error(format!("cannot run {}: {}", bin.display(), e)))?;
    finish(o, args)
}

/// With the standard error on a terminal. None: this machine has no pseudo-terminals.
pub fn run_tty(bin: &Path, cwd: &Path, args: &[&str], env: &[(&str, &str)]) -> Result<Option<Run>, Stop> {
    use std::io::Read;
    use std::os::unix::fs::OpenOptionsExt;
    use std::os::unix::io::AsRawFd;
    const O_NOCTTY: i32 = 0o400;
    let open = |p: &str| fs::OpenOptions::new().read(true).write(true).custom_flags(O_NOCTTY).open(p);
    let mut master = match open("/dev/ptmx") {
        Ok(f) => f,
        Err(_) => return Ok(None),
    };
    let mut name = [0u8; 128];
    if unsafe { unlockpt(master.as_raw_fd()) != 0 || ptsname_r(master.as_raw_fd(), name.as_mut_ptr(), name.len()) != 0 } {
        return Ok(None);
    }
    let n = name.iter().position(|b| *b == 0).unwrap_or(0);
    let slave = match open(&String::from_utf8_lossy(&name[..n])) {
        Ok(f) => f,
        Err(_) => return Ok(None),
    };
    let mut c = command(bin, cwd, args, env, 45);
    c.stderr(Stdio::from(slave));
    let child = c.spawn().map_err(|e| Stop::Error(format!("cannot run {}: {}", bin.display(), e)))?;
    drop(c); // closes our copy of the terminal
    let reader = std::thread::spawn(move || {
        let mut v = vec![];
        let mut b = [0u8; 4096];
        // the end of a terminal is an error
        while let Ok(n) = master.read(&mut b) {
            if n == 0 {
                break;
            }
            v.extend_from_slice(&b[..n]);
        }
        v
    });
    let mut o = child.wait_with_output().map_err(|e| Stop::Error(format!("wait: {}", e)))?;
    o.stderr = reader.join().unwrap_or_default();
    finish(o, args).map(Some)
}

/// Where one of the output streams goes.
#[derive(Clone, Debug, PartialEq)]
pub enum Sink {
    Kept,
    /// a device that takes nothing
    Full,
    /// a pipe nobody reads from
    Unread,
    /// a file
    File(PathBuf),
}

fn stdio(s: &Sink) -> Result<Stdio, Stop> {
    use std::os::unix::io::FromRawFd;
    let e = |e: std::io::Error| Stop::Error(format!("cannot open {:?}: {}", s, e));
    Ok(match s {
        Sink::Kept => Stdio::piped(),
        Sink::Full => Stdio::from(fs::OpenOptions::new().write(true).open("/dev/full").map_err(e)?),
        Sink::File(p) => Stdio::from(fs::File::create(p).map_err(e)?),
        Sink::Unread => {
            let mut fd = [0i32; 2];
            if unsafe { pipe2(fd.as_mut_ptr(), 0o2000000) } != 0 {
                return Err(e(std::io::Error::last_os_error()));
            }
            let (r, w) = unsafe { (fs::File::from_raw_fd(fd[0]), fs::File::from_raw_fd(fd[1])) };
            drop(r);
            Stdio::from(w)
        }
    })
}

/// With the streams elsewhere, and files that cannot grow past `limit` bytes.
pub fn run_sinks(bin: &Path, cwd: &Path, args: &[&str], env: &[(&str, &str)], out: &Sink, err: &Sink, limit: Option<u64>) -> Result<Run, Stop> {
    let mut c = command(bin, cwd, args, env, 45);
    c.stdout(stdio(out)?).stderr(stdio(err)?);
    if let Some(k) = limit {
        unsafe {
            c.pre_exec(move || {
                // SIGXFSZ ignored: the write fails instead
                signal(25, 1);
                let l = RLimit { cur: k, max: 256 << 20 };
                let _ = setrlimit(RLIMIT_FSIZE, &l);
                Ok(())
            });
        }
    }
    let o = c.output().map_err(|e| Stop::Error(format!("cannot run {}: {}", bin.display(), e)))?;
    finish(o, args)
}

/// What one run cost: exit status, CPU seconds, peak resident bytes.
#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub code: Option<i32>,
    pub signal: i32,
    pub cpu: f64,
    pub rss: u64,
}

/// Run with output and messages thrown away, and say what it cost.
pub fn run_cost(bin: &Path, cwd: &Path, args: &[&str], cpu: u64) -> Result<Cost, Stop> {
    let mut c = command(bin, cwd, args, &[], cpu);
    c.stdout(Stdio::null()).stderr(Stdio::null());
    let child = c.spawn().map_err(|e| Stop::Error(format!("cannot run {}: {}", bin.display(), e)))?;
    let mut status = 0i32;
    let mut u = [0i64; 18];
    loop {
        let r = unsafe { wait4(child.id() as i32, &mut status, 0, u.as_mut_ptr()) };
        if r == child.id() as i32 {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return Err(Stop::Error("wait4 failed".into()));
        }
    }
    let signal = status & 0x7f;
    if signal == 14 || signal == 9 {
        return Err(Stop::Error(format!("wall-clock watchdog or external kill on {:?}", args)));
    }
    Ok(Cost {
        code: if signal == 0 { Some((status >> 8) & 0xff) } else { None },
        signal,
        cpu: (u[0] + u[2]) as f64 + (u[1] + u[3]) as f64 / 1e6,
        rss: u[4] as u64 * 1024,
    })
}

/// The same command on an input and on one four times as large (`set` puts them in place):
/// neither time nor memory may grow far beyond fourfold. Costs that are too small to be felt
/// are not judged; a growth is only believed when it is there in the best of several runs.
pub fn growth(ctx: &mut Ctx, args: &[&str], set: &mut dyn FnMut(&mut Ctx, usize)) -> Result<Result<(Cost, Cost), String>, Stop> {
    let bin = WB.get().expect("binary").clone();
    let mut best: Option<(Cost, Cost)> = None;
    for _ in 0..4 {
        let mut pair = vec![];
        for k in [1usize, 4] {
            set(ctx, k);
            let d = ctx.dir.clone();
            ctx.dirty = true;
            let c = run_cost(&bin, &d, args, 60)?;
            if c.signal == 24 {
                let c = run_cost(&bin, &d, args, 60)?;
                if c.signal == 24 {
                    return Ok(Err(format!("still running after {:.0} s of CPU time", c.cpu)));
                }
            } else if c.signal != 0 || !matches!(c.code, Some(0) | Some(1)) {
                return Ok(Err(format!("ended with exit {:?}, signal {}", c.code, c.signal)));
            }
            pair.push(c);
        }
        let b = match best {
            None => (pair[0], pair[1]),
            Some((a, z)) => (
                // the dearest of the small runs against the cheapest of the large ones
                Cost { cpu: a.cpu.max(pair[0].cpu), rss: a.rss.max(pair[0].rss), ..a },
                Cost { cpu: z.cpu.min(pair[1].cpu), rss: z.rss.min(pair[1].rss), ..z },
            ),
        };
        best = Some(b);
        if b.1.cpu <= (10.0 * b.0.cpu).max(1.0) && b.1.rss <= 8 * b.0.rss + (256 << 20) {
            return Ok(Ok(b));
        }
    }
    let (a, z) = best.unwrap();
    Ok(Err(format!("{:.2} s and {} MB of memory, four times as large {:.2} s and {} MB", a.cpu, a.rss >> 20, z.cpu, z.rss >> 20)))
}

fn command(bin: &Path, cwd: &Path, args: &[&str], env: &[(&str, &str)], cpu: u64) -> Command {
    let mut c = Command::new(bin);
    c.arg0("waterbear");
    c.args(args.iter().map(|a| raw(a)))
        .current_dir(cwd)
        .env("PWD", cwd)
        .env_remove("RUST_BACKTRACE")
        .env("RUST_LIB_BACKTRACE", "0");
    for (k, v) in env {
        if *v == UNSET {
            c.env_remove(k);
        } else {
            c.env(k, raw(v));
        }
    }
    c
        .stdin(Stdio::null())
        .stdout(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            let set = |r: i32, v: u64, h: u64| {
                let l = RLimit { cur: v, max: h };
                let _ = setrlimit(r, &l);
            };
            set(RLIMIT_CORE, 0, 0);
            set(RLIMIT_CPU, cpu, cpu + 30);
            set(RLIMIT_FSIZE, 256 << 20, 256 << 20);
            set(RLIMIT_AS, 3 << 30, 3 << 30);
            let _ = alarm(600);
            Ok(())
        });
    }
    c
}

fn finish(o: std::process::Output, args: &[&str]) -> Result<Run, Stop> {
    let signal = o.status.signal();
    if signal == Some(14) || signal == Some(9) {
        return Err(Stop::Error(format!("wall-clock watchdog or external kill on {:?}", args)));
    }
    Ok(Run {
        code: o.status.code(),
        signal,
        hang: signal == Some(24),
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).to_string(),
    })
}

/// What assembling a set of files did.
#[derive(Debug, Clone)]
pub enum Asm {
    Ok(Vec<u8>),
    Rejected(String),
    Broken(String),
}

impl Asm {
    pub fn describe(&self) -> String {
        match self {
            Asm::Ok(b) => format!("assembled {} bytes: {}", b.len(), hex(b)),
            Asm::Rejected(e) => format!("rejected: {}", clip(e, 600)),
            Asm::Broken(e) => format!("BROKEN: {}", e),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 400 {
            s.push_str("...");
            break;
        }
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// Write the files, assemble `main`, read the output.
pub fn assemble(ctx: &mut Ctx, files: &[(String, Vec<u8>)], main: &str) -> Result<Asm, Stop> {
    for (n, d) in files {
        ctx.write(n, d);
    }
    assemble_existing(ctx, main, "out.vms")
}

pub fn assemble_existing(ctx: &mut Ctx, main: &str, out: &str) -> Result<Asm, Stop> {
    ctx.remove(out);
    let r = ctx.wb(&["assemble", main, "-o", out])?;
    if r.ok() {
        match ctx.read(out) {
            Some(b) => Ok(Asm::Ok(b)),
            None => Ok(Asm::Broken(format!("exit 0 but no output file; stderr: {}", clip(&r.err, 400)))),
        }
    } else if r.rejected() {
        Ok(Asm::Rejected(r.err))
    } else {
        Ok(Asm::Broken(r.how()))
    }
}

pub fn assemble_src(ctx: &mut Ctx, src: &str) -> Result<Asm, Stop> {
    assemble(ctx, &[("main.s".to_string(), src.as_bytes().to_vec())], "main.s")
}

pub fn repro_files(files: &[(String, Vec<u8>)], cmd: &str) -> String {
    let mut s = String::new();
    for (n, d) in files {
        s.push_str(&format!("--- file {}\n{}\n", n, show(d)));
    }
    s.push_str(&format!("--- command\n{}\n", cmd));
    s
}
