//! Checks on the command-line program: its reports against the library, and its exit status under faults.
use crate::api::{self, agree, Out, M};
use crate::c_frame::par_cases;
use crate::ctx::{self, Rng};
use crate::gen::*;
use crate::y4mfile::*;
use av_metrics_decoders::y4m::new_decoder_from_file;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const COLS: [(&str, &str, &str, M); 6] = [
    // column, option value, text label, metric
    ("psnr", "psnr", "PSNR", M::Psnr),
    ("apsnr", "apsnr", "APSNR", M::Apsnr),
    ("psnr_hvs", "psnrhvs", "PSNR HVS", M::Hvs),
    ("ssim", "ssim", "SSIM", M::Ssim),
    ("msssim", "msssim", "MSSSIM", M::Msssim),
    ("ciede2000", "ciede2000", "CIEDE2000", M::Ciede),
];

/// The programs under test: path and whether it decodes through FFmpeg.
fn programs() -> Vec<(PathBuf, bool)> {
    let v = std::env::var("AVM_CLI").expect("HARNESS: AVM_CLI not set");
    let mut o = vec![(PathBuf::from(v), false)];
    if cfg!(feature = "ffmpeg") {
        if let Ok(p) = std::env::var("AVM_CLI_FFMPEG") {
            o.push((PathBuf::from(p), true));
        }
    }
    o
}
struct Scratch(PathBuf);
static NEXT: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).expect("HARNESS: VERIF_SCRATCH not set");
        let d = base.join(format!("case{}", NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("HARNESS: scratch");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[cfg(feature = "ffmpeg")]
fn lib_ffmpeg(m: M, a: &Path, b: &Path) -> Out {
    use av_metrics_decoders::FfmpegDecoder;
    let (mut x, mut y) = match (FfmpegDecoder::new(a), FfmpegDecoder::new(b)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Out::Err("Open".into(), String::new()),
    };
    api::video(m, &mut x, &mut y, None, |_| {})
}
#[cfg(not(feature = "ffmpeg"))]
fn lib_ffmpeg(_: M, _: &Path, _: &Path) -> Out {
    Out::Err("Open".into(), String::new())
}
/// What the library computes for the pair.
fn library(m: M, a: &Path, b: &Path, ffmpeg: bool) -> Out {
    if ffmpeg {
        return lib_ffmpeg(m, a, b);
    }
    match (new_decoder_from_file(a), new_decoder_from_file(b)) {
        (Ok(mut x), Ok(mut y)) => api::video(m, &mut x, &mut y, None, |_| {}),
        _ => Out::Err("Open".into(), String::new()),
    }
}

struct Job {
    base: String,
    files: Vec<String>,
    metric: Option<usize>,
    want: Vec<BTreeMap<&'static str, Vec<f64>>>,
    desc: String,
}
thread_local! { static PATHS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn write_video(dir: &Path, name: &str, tag: &str, frames: &[Pic]) {
    let p = dir.join(name);
    // as spelled, so that a `..` can be resolved
    let mut at = dir.to_path_buf();
    let parts: Vec<&str> = name.split('/').filter(|s| !s.is_empty()).collect();
    if !name.starts_with('/') {
        for q in &parts[..parts.len() - 1] {
            at.push(q);
            std::fs::create_dir_all(&at).expect("HARNESS: folder");
        }
    }
    std::fs::write(p, stream(tag, frames)).expect("HARNESS: write");
}
/// What an earlier, longer run may have left where the report goes.
const STALE: &str = "Results for STALE-REPORT.y4m:";
fn leave_stale(r: &mut Rng, p: &Path) {
    if r.chance(0.5) {
        let l = format!("\n    {STALE} \n\n     PSNR       ->  Y: 1.0000,2,3,4,5,6,7\n|STALE|1|2|3|4|5|6|\n");
        let _ = std::fs::write(p, l.repeat(r.range(1, 900)));
        ctx::count("reports over an older file", 1);
    }
}
fn file_name(r: &mut Rng, i: usize) -> String {
    if !VALUES.load(Ordering::Relaxed) {
        return format!("clip{i}.y4m");
    }
    // one name in several folders, spelled in several ways: what a report says must not go by parts of it
    if PATHS.with(|p| p.get()) {
        return match r.below(4) {
            0 => format!("d{i}/clip.y4m"),
            1 => format!("./d{i}/clip.y4m"),
            2 => format!("d{i}/../d{i}/clip.y4m"),
            _ => format!("d{i}/d0/clip.y4m"),
        };
    }
    let stem = *r.pick(&["clip", "a b", "x,y", "qu\"ote", "pi|pe", "déjà", "v1.2-final", "long_name_of_a_file_that_goes_on", "100%", "c=d;e"]);
    format!("{stem}{i}.y4m")
}
fn job(r: &mut Rng, dir: &Path, ffmpeg: bool, many: usize) -> Job {
    let tags: Vec<&Tag> = TAGS.iter().filter(|t| !ffmpeg || (t.cs != Cs400)).collect();
    let t = **r.pick(&tags);
    let (xd, yd) = dec(t.cs);
    let (w, h) = if r.chance(0.2) { (r.range(2, 40), r.range(2, 40)) } else { (r.range(16 << xd, 44), r.range(16 << yd, 44)) };
    let n = r.range(1, 4);
    let frames: Vec<Pic> = (0..n)
        .map(|_| {
            let c = *r.pick(&[Content::Waves, Content::Blocks, Content::Noise, Content::Gradient]);
            Pic::gen(r, w, h, t.depth, t.cs, c)
        })
        .collect();
    PATHS.with(|p| p.set(VALUES.load(Ordering::Relaxed) && r.chance(0.3)));
    let base = file_name(r, 0);
    write_video(dir, &base, t.tag, &frames);
    let metric = if r.chance(0.4) { None } else { Some(r.below(6)) };
    let nf = if many > 0 { many } else { r.range(1, 4) };
    let mut files: Vec<String> = vec![];
    for i in 1..=nf {
        if i > 3 || (i > 1 && r.chance(0.1)) {
            // the same file listed again
            let f = r.pick(&files).clone();
            files.push(f);
            continue;
        }
        if VALUES.load(Ordering::Relaxed) && r.chance(0.08) {
            // the base itself, or an earlier file by its full name or through a link
            let of = if i > 1 && r.chance(0.6) { r.pick(&files).clone() } else { base.clone() };
            let full = dir.join(&of).to_string_lossy().into_owned();
            files.push(match r.below(3) {
                0 => of,
                1 => full,
                _ => {
                    let l = format!("link{i}.y4m");
                    std::os::unix::fs::symlink(&full, dir.join(&l)).expect("HARNESS: link");
                    l
                }
            });
            continue;
        }
        let name = file_name(r, i);
        let other: Vec<Pic> = match r.below(8) {
            0 => frames.clone(),
            // another size: the metrics have no value
            1 => vec![Pic::gen(r, w + 2, h, t.depth, t.cs, Content::Noise)],
            2 => frames[..r.range(1, n)].to_vec(),
            _ => {
                let d = *r.pick(&[Distort::SmallNoise, Distort::BigNoise, Distort::Offset, Distort::Blur, Distort::Contrast]);
                frames.iter().map(|p| p.distorted(r, d)).collect()
            }
        };
        write_video(dir, &name, t.tag, &other);
        files.push(name);
    }
    let mut cache: BTreeMap<String, BTreeMap<&'static str, Vec<f64>>> = BTreeMap::new();
    let want = files
        .iter()
        .map(|f| {
            cache
                .entry(f.clone())
                .or_insert_with(|| {
                    let mut o = BTreeMap::new();
                    for (i, (col, _, _, m)) in COLS.iter().enumerate() {
                        if metric.is_none() || metric == Some(i) {
                            if let Out::Ok(v) = library(*m, &dir.join(&base), &dir.join(f), ffmpeg) {
                                o.insert(*col, v);
                            }
                        }
                    }
                    o
                })
                .clone()
        })
        .collect();
    let desc = format!("{}x{} {} frames={} files={} metric={}", w, h, t.tag, n, files.len(), metric.map(|i| COLS[i].1).unwrap_or("all"));
    Job { base, files, metric, want, desc }
}
/// Off where only completeness is judged.
static VALUES: AtomicBool = AtomicBool::new(true);
fn same(m: M, got: &[f64], want: &[f64]) -> bool {
    !VALUES.load(Ordering::Relaxed) || agree(m, &Out::Ok(got.to_vec()), &Out::Ok(want.to_vec()))
}
/// JSON has no infinities: null stands for them.
fn json_num(v: &Value, want: f64) -> Option<f64> {
    if v.is_null() && !want.is_finite() {
        Some(want)
    } else {
        v.as_f64()
    }
}
fn judge_json(text: &str, j: &Job) -> Result<(), String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {e}"))?;
    if v["base"] != json!(j.base) {
        return Err(format!("base is {}", v["base"]));
    }
    let c = v["comparisons"].as_array().ok_or("no comparisons")?;
    if c.len() != j.files.len() {
        return Err(format!("{} comparisons for {} files", c.len(), j.files.len()));
    }
    for (k, (c, f)) in c.iter().zip(&j.files).enumerate() {
        if c["filename"] != json!(f) {
            return Err(format!("entry {k} is {} instead of {f}", c["filename"]));
        }
        for (col, _, _, m) in COLS {
            let x = &c[col];
            match j.want[k].get(col) {
                None if x.is_null() => {}
                None => return Err(format!("{col} of {f}: {x} where there is no value")),
                Some(w) if w.len() == 1 => {
                    let g = json_num(x, w[0]).ok_or(format!("{col} of {f} missing"))?;
                    if !same(m, &[g], w) {
                        return Err(format!("{col} of {f}: {g}, library {}", w[0]));
                    }
                }
                Some(w) => {
                    let mut g = vec![];
                    for (i, p) in ["y", "u", "v", "avg"].iter().enumerate() {
                        if !x.is_object() {
                            return Err(format!("{col} of {f} missing"));
                        }
                        g.push(json_num(&x[*p], w[i]).ok_or(format!("{col}.{p} of {f} missing"))?);
                    }
                    if !same(m, &g, w) {
                        return Err(format!("{col} of {f}: {g:?}, library {w:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}
fn csv_rows(text: &str) -> Vec<Vec<String>> {
    let mut rows = vec![];
    let mut row = vec![];
    let mut cell = String::new();
    let mut quoted = false;
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' if quoted && it.peek() == Some(&'"') => {
                cell.push('"');
                it.next();
            }
            '"' if quoted => quoted = false,
            '"' if cell.is_empty() => quoted = true,
            ',' if !quoted => row.push(std::mem::take(&mut cell)),
            '\n' if !quoted => {
                row.push(std::mem::take(&mut cell));
                rows.push(std::mem::take(&mut row));
            }
            '\r' if !quoted => {}
            c => cell.push(c),
        }
    }
    if !cell.is_empty() || !row.is_empty() {
        row.push(cell);
        rows.push(row);
    }
    rows
}
fn md_rows(text: &str) -> Vec<Vec<String>> {
    text.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut cells = vec![String::new()];
            let mut it = l.trim().chars().peekable();
            while let Some(c) = it.next() {
                match c {
                    '\\' if it.peek() == Some(&'|') => {
                        cells.last_mut().unwrap().push('|');
                        it.next();
                    }
                    '|' => cells.push(String::new()),
                    c => cells.last_mut().unwrap().push(c),
                }
            }
            // the outer bars
            if cells.first().map(|c| c.is_empty()) == Some(true) {
                cells.remove(0);
            }
            if cells.last().map(|c| c.is_empty()) == Some(true) {
                cells.pop();
            }
            cells.iter().map(|c| c.trim().to_string()).collect()
        })
        .collect()
}
fn judge_table(rows: &[Vec<String>], body: usize, j: &Job) -> Result<(), String> {
    let head = rows.first().ok_or("empty")?;
    let mut cols: Vec<&str> = vec!["filename"];
    cols.extend(COLS.iter().map(|c| c.0));
    if head.iter().map(String::as_str).collect::<Vec<_>>() != cols {
        return Err(format!("columns {head:?}"));
    }
    let rows = &rows[body.min(rows.len())..];
    if rows.len() != j.files.len() {
        return Err(format!("{} rows for {} files", rows.len(), j.files.len()));
    }
    for (k, (row, f)) in rows.iter().zip(&j.files).enumerate() {
        if row.len() != 7 || row[0] != *f {
            return Err(format!("row {k} is {row:?}, file {f}"));
        }
        for (i, (col, _, _, m)) in COLS.iter().enumerate() {
            let cell = row[i + 1].as_str();
            match j.want[k].get(col) {
                None => {
                    // absent cells are printed as negative zero
                    if !["-0", "", "-"].contains(&cell) {
                        return Err(format!("{col} of {f}: {cell} where there is no value"));
                    }
                }
                Some(w) => {
                    let w = *w.last().unwrap();
                    let g: f64 = cell.parse().map_err(|_| format!("{col} of {f}: {cell}"))?;
                    if !same(*m, &[g], &[w]) {
                        return Err(format!("{col} of {f}: {g}, library {w}"));
                    }
                }
            }
        }
    }
    Ok(())
}
fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            if it.peek() == Some(&'[') {
                it.next();
                for d in it.by_ref() {
                    if d.is_ascii_alphabetic() {
                        break;
                    }
                }
            }
        } else if c != '\r' {
            o.push(c);
        }
    }
    o
}
/// A printed number against the value: exact to the printed decimals.
fn near4(got: &str, want: f64) -> bool {
    let g = match got.parse::<f64>() {
        Ok(g) => g,
        Err(_) => return false,
    };
    if !VALUES.load(Ordering::Relaxed) {
        return true;
    }
    let decimals = got.split_once('.').map(|(_, d)| d.len()).unwrap_or(0);
    if want.is_infinite() {
        return g == want;
    }
    decimals == 4 && (g - want).abs() <= 0.5001e-4 + 1e-9
}
fn judge_text(text: &str, j: &Job) -> Result<(), String> {
    let text = strip_ansi(text);
    if !text.contains(&format!("Comparing {}", j.base)) {
        return Err("base file not named".into());
    }
    let mut at: Vec<usize> = vec![];
    let mut from = 0;
    for f in &j.files {
        let mark = format!("Results for {f}:");
        let p = text[from..].find(&mark).ok_or(format!("{f} missing or out of order"))?;
        at.push(from + p + mark.len());
        from += p + mark.len();
    }
    if text.matches("Results for ").count() != j.files.len() {
        return Err("results of files nobody asked for".into());
    }
    for (k, f) in j.files.iter().enumerate() {
        let end = if k + 1 < at.len() { at[k + 1] } else { text.len() };
        let part = &text[at[k]..end];
        for (col, _, label, _) in COLS {
            let line = part.lines().find(|l| l.split('→').next().map(|s| s.trim() == label) == Some(true) && l.contains('→'));
            match (line, j.want[k].get(col)) {
                (None, None) => {}
                (None, Some(_)) => return Err(format!("{label} of {f} missing")),
                (Some(l), None) => return Err(format!("{label} of {f}: {l} where there is no value")),
                (Some(l), Some(w)) => {
                    let names: &[&str] = if w.len() == 1 { &["Delta:"] } else { &["Y:", "U/Cb:", "V/Cr:", "Avg value:"] };
                    for (i, n) in names.iter().enumerate() {
                        let rest = l.split_once(n).ok_or(format!("{label} of {f}: {l}"))?.1;
                        let num = rest.split_whitespace().next().unwrap_or("");
                        if !near4(num, w[i]) {
                            return Err(format!("{label} {n} of {f}: {num}, library {}", w[i]));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
    Text,
    Json,
    Csv,
    Md,
}
const TOS: [To; 4] = [To::Text, To::Json, To::Csv, To::Md];
impl To {
    fn opt(self) -> &'static str {
        match self {
            To::Text => "--export-file",
            To::Json => "--export-json",
            To::Csv => "--export-csv",
            To::Md => "--export-markdown",
        }
    }
    fn judge(self, text: &str, j: &Job) -> Result<(), String> {
        if text.contains("STALE") {
            return Err("parts of an older report are left in it".into());
        }
        match self {
            To::Text => judge_text(text, j),
            To::Json => judge_json(text, j),
            To::Csv => judge_table(&csv_rows(text), 1, j),
            To::Md => judge_table(&md_rows(text), 2, j),
        }
    }
}
enum Stdio3 {
    Pipe,
    Pty,
    Full,
    Gone,
}
struct Run {
    status: Option<i32>,
    signal: Option<i32>,
    stdout: String,
    stderr: String,
    hung: bool,
}
fn run(prog: &Path, dir: &Path, args: &[String], out: Stdio3, fsize: Option<u64>) -> Run {
    let mut c = Command::new(prog);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
    // SAFETY: only async-signal-safe calls between fork and exec
    unsafe {
        c.pre_exec(move || {
            if let Some(n) = fsize {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            }
            Ok(())
        });
    }
    let mut master: Option<std::fs::File> = None;
    match out {
        Stdio3::Pipe => {
            c.stdout(Stdio::piped());
        }
        Stdio3::Full => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("HARNESS: /dev/full"));
        }
        Stdio3::Gone => {
            let mut p = [0; 2];
            unsafe {
                assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0, "HARNESS: pipe");
                libc::close(p[0]);
                c.stdout(std::fs::File::from_raw_fd(p[1]));
            }
        }
        Stdio3::Pty => {
            let (mut m, mut s) = (0, 0);
            unsafe {
                let mut ws: libc::winsize = std::mem::zeroed();
                ws.ws_col = 200;
                ws.ws_row = 50;
                let r = libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws);
                assert!(r == 0, "HARNESS: openpty");
                for fd in [m, s] {
                    libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
                }
                master = Some(std::fs::File::from_raw_fd(m));
                let slave = std::fs::File::from_raw_fd(s);
                c.stderr(slave.try_clone().expect("HARNESS: dup"));
                c.stdout(slave);
            }
        }
    }
    let mut ch = c.spawn().expect("HARNESS: spawn");
    drop(c);
    let slurp = |r: Option<Box<dyn Read + Send>>| {
        std::thread::spawn(move || {
            let mut v = vec![];
            if let Some(mut r) = r {
                let mut b = [0u8; 4096];
                // a pseudo-terminal ends with an error, not with 0 bytes
                while let Ok(n) = r.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    v.extend_from_slice(&b[..n]);
                }
            }
            String::from_utf8_lossy(&v).into_owned()
        })
    };
    let so = match master {
        Some(m) => slurp(Some(Box::new(m))),
        None => slurp(ch.stdout.take().map(|s| Box::new(s) as Box<dyn Read + Send>)),
    };
    let se = slurp(ch.stderr.take().map(|s| Box::new(s) as Box<dyn Read + Send>));
    let t = Instant::now();
    let (mut hung, mut st) = (false, None);
    while st.is_none() {
        st = ch.try_wait().expect("HARNESS: wait");
        if st.is_none() {
            if t.elapsed() > Duration::from_secs(90) {
                hung = true;
                let _ = ch.kill();
                st = ch.wait().ok();
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    use std::os::unix::process::ExitStatusExt;
    Run {
        status: st.and_then(|s| s.code()),
        signal: st.and_then(|s| s.signal()),
        stdout: so.join().unwrap_or_default(),
        stderr: se.join().unwrap_or_default(),
        hung,
    }
}
fn base_args(r: &mut Rng, j: &Job, opts: Vec<String>) -> Vec<String> {
    let mut pos: Vec<String> = vec![j.base.clone()];
    pos.extend(j.files.iter().cloned());
    let mut opts = opts;
    if let Some(i) = j.metric {
        let at = opts.iter().enumerate().filter(|(_, o)| o.starts_with("--")).map(|(i, _)| i).next().unwrap_or(opts.len());
        opts.splice(at..at, ["--metric".to_string(), COLS[i].1.to_string()]);
    }
    if r.chance(0.5) {
        opts.extend(pos);
        opts
    } else {
        pos.extend(opts);
        pos
    }
}
fn read(p: &Path) -> String {
    std::fs::read_to_string(p).unwrap_or_default()
}

// ---------------------------------------------------------------- C21
pub fn c21() {
    ctx::rule("runs of the program (both builds: Y4M and FFmpeg) on generated files: all colour formats, 1..4 compared files incl. repeated, identical, shorter and mismatched ones and awkward names, every metric selection, every subset of JSON/CSV/Markdown/text/terminal outputs, quiet, frame counting, real pseudo-terminals; every report parsed and every value compared with the library run on the same files; distinct by files and options");
    let progs = programs();
    par_cases(1, ctx::n(420, 9000), |r, i| {
        let (prog, ff) = &progs[i % progs.len()];
        let dir = Scratch::new();
        let many = if i % 40 == 7 { 60 } else { 0 };
        let j = job(r, &dir.0, *ff, many);
        let tos: Vec<To> = TOS.iter().copied().filter(|_| r.chance(0.6)).collect();
        let quiet = r.chance(0.3);
        let frames = r.chance(0.2);
        let pty = !quiet && r.chance(0.15) || r.chance(0.05);
        let mut opts = vec![];
        for t in &tos {
            opts.push(t.opt().to_string());
            opts.push(format!("out-{t:?}"));
        }
        if quiet {
            opts.push("--quiet".into());
        }
        if frames {
            opts.push("--frames".into());
        }
        for t in &tos {
            leave_stale(r, &dir.0.join(format!("out-{t:?}")));
        }
        let args = base_args(r, &j, opts);
        let o = run(prog, &dir.0, &args, if pty { Stdio3::Pty } else { Stdio3::Pipe }, None);
        let desc = json!({"case": i, "ffmpeg": ff, "job": j.desc, "args": args.iter().take(24).collect::<Vec<_>>(), "terminal": pty});
        ctx::case(Some(ctx::hash_str(&format!("{i} {} {args:?}", j.desc))));
        ctx::count(if *ff { "program:ffmpeg" } else { "program:y4m" }, 1);
        let fail = |what: &str, e: String| {
            ctx::violation(what, json!({"run": desc, "diff": e, "status": o.status, "stderr": ctx::shorten(&o.stderr, 300)}));
        };
        if o.hung {
            return fail("the program does not end", String::new());
        }
        if o.status != Some(0) {
            return fail("a run with good inputs fails", format!("signal {:?}, output {}", o.signal, ctx::shorten(&o.stdout, 200)));
        }
        for t in &tos {
            ctx::count(&format!("report:{t:?}"), 1);
            if let Err(e) = t.judge(&read(&dir.0.join(format!("out-{t:?}"))), &j) {
                fail(&format!("{t:?} report differs from the computed scores"), e);
            }
        }
        if quiet && !pty {
            ctx::count("report:quiet", 1);
            if !o.stdout.is_empty() {
                fail("output in quiet mode", ctx::shorten(&o.stdout, 200));
            }
        } else if quiet {
            ctx::count("report:quiet terminal", 1);
            if o.stdout.contains("Results for") || o.stdout.contains("Comparing") {
                fail("results on the terminal in quiet mode", ctx::shorten(&o.stdout, 200));
            }
        } else {
            ctx::count(if pty { "report:terminal" } else { "report:stdout" }, 1);
            if let Err(e) = judge_text(&o.stdout, &j) {
                fail("printed report differs from the computed scores", e);
            }
        }
        for e in std::fs::read_dir(&dir.0).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            let known = n.ends_with(".y4m") || (n.len() == 2 && n.starts_with('d')) || tos.iter().any(|t| n == format!("out-{t:?}"));
            if !known {
                fail("a file nobody asked for", n);
            }
        }
        for (k, w) in j.want.iter().enumerate() {
            for (col, v) in w {
                ctx::count(&format!("values:{col}"), v.len() as u64);
                if k == 0 && i % 29 == 0 && ctx::want_sample() {
                    ctx::sample(json!({"run": desc, "column": col, "value": v.iter().map(|x| x.to_string()).collect::<Vec<_>>()}));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C22
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    Missing,
    Directory,
    Empty,
    Garbage,
    BadHeader,
}
pub fn c22() {
    ctx::st().level = "fault_enumeration".into();
    VALUES.store(false, Ordering::Relaxed);
    ctx::rule("runs of the program with one fault each: inputs missing, directories, empty, garbage or with a damaged header (base or any compared file); each report destination in a missing directory, a directory itself, a full device, or cut off by a file-size limit at points from 0 bytes to the whole report, for short and long reports; standard output full or its reader gone; plus fault-free controls. A zero exit status requires every requested report to be complete (parsed as in C21: every file, every selected metric that has a value), a fault requires a non-zero one; distinct by fault, destination, position and report size");
    let progs = programs();
    par_cases(1, ctx::n(420, 8000), |r, i| {
        let (prog, ff) = &progs[(i / 2) % progs.len()];
        let dir = Scratch::new();
        let long = i % 6 == 5;
        let many = if long { r.range(80, 200) } else { 0 };
        let mut j = job(r, &dir.0, *ff, many);
        let kind = i % 8;
        let mut dest: Vec<(To, String)> = TOS.iter().filter(|_| r.chance(0.4)).map(|t| (*t, format!("out-{t:?}"))).collect();
        let quiet = r.chance(0.4);
        let mut out = Stdio3::Pipe;
        let mut fsize = None;
        // Some(true): must fail; None: judged by what was written
        let mut must = Some(true);
        let fault: String;
        let victim = *r.pick(&TOS);
        let aim = |d: &mut Vec<(To, String)>, p: String| {
            d.retain(|x| x.0 != victim);
            d.push((victim, p));
        };
        match kind {
            0 | 1 => {
                let b = *r.pick(&[Bad::Missing, Bad::Directory, Bad::Empty, Bad::Garbage, Bad::BadHeader]);
                let name = "bad.y4m".to_string();
                let p = dir.0.join(&name);
                let w = |v: &[u8]| std::fs::write(&p, v).expect("HARNESS: write");
                match b {
                    Bad::Missing => {}
                    Bad::Directory => std::fs::create_dir(&p).expect("HARNESS: mkdir"),
                    Bad::Empty => w(b""),
                    Bad::Garbage => w(&(0..r.range(1, 300)).map(|_| r.below(256) as u8 | 0x80).collect::<Vec<_>>()),
                    Bad::BadHeader => w(r.pick(&[&b"YUV4MPEG2 Wx H16 C420\nFRAME\n"[..], b"YUV4MPEG2 W16 H0 C420\n", b"YUV4MPEG2 W16 H16 Cnonsense\nFRAME\n", b"YUV4MPEG"])),
                }
                let base = r.chance(0.3);
                if base {
                    j.base = name;
                } else {
                    let k = r.below(j.files.len());
                    j.files[k] = name;
                }
                fault = format!("input {b:?} {}", if base { "base" } else { "compared" });
            }
            2 => {
                aim(&mut dest, "nosuchdir/out".into());
                fault = format!("missing directory {victim:?}");
            }
            3 => {
                std::fs::create_dir(dir.0.join("adir")).expect("HARNESS: mkdir");
                aim(&mut dest, "adir".into());
                fault = format!("directory {victim:?}");
            }
            4 => {
                aim(&mut dest, "/dev/full".into());
                fault = format!("full {victim:?}");
            }
            5 => {
                // some byte of one of the files will not fit
                if dest.is_empty() {
                    aim(&mut dest, "out-v".into());
                }
                let n = *r.pick(&[0u64, 1, 50, 100, 200, 400, 1000, 4096, 8192, 20000]);
                fsize = Some(n);
                must = None;
                fault = format!("file size limit {n}");
            }
            6 => {
                out = if r.chance(0.5) { Stdio3::Full } else { Stdio3::Gone };
                if quiet {
                    must = None;
                }
                fault = format!("standard output {}{}", if matches!(out, Stdio3::Full) { "full" } else { "gone" }, if quiet { ", quiet" } else { "" });
            }
            _ => {
                must = None;
                fault = "none".into();
            }
        }
        let plain_out = matches!(out, Stdio3::Pipe);
        let mut opts = vec![];
        for (t, p) in &dest {
            opts.push(t.opt().to_string());
            opts.push(p.clone());
            if p.starts_with("out") {
                leave_stale(r, &dir.0.join(p));
            }
        }
        if quiet {
            opts.push("--quiet".into());
        }
        let args = base_args(r, &j, opts);
        let o = run(prog, &dir.0, &args, out, fsize);
        let desc = json!({"case": i, "ffmpeg": ff, "job": j.desc, "fault": fault, "args": args.iter().filter(|a| a.starts_with("--") || a.starts_with("out") || a.starts_with('/') || a.contains("dir")).collect::<Vec<_>>()});
        ctx::case(Some(ctx::hash_str(&format!("{fault} {:?} {} {} {}", dest, j.files.len(), ff, j.desc))));
        ctx::count(&format!("fault:{}", fault.split(" limit").next().unwrap()), 1);
        let class = match (o.status, o.signal) {
            (Some(0), _) => "zero",
            (Some(_), _) => "non-zero",
            _ => "signal",
        };
        ctx::count(&format!("exit:{class}"), 1);
        if i % 31 == 0 && ctx::want_sample() {
            ctx::sample(json!({"run": desc, "exit": o.status}));
        }
        let fail = |what: &str, e: String| {
            ctx::violation(what, json!({"run": desc, "diff": e, "status": o.status, "stderr": ctx::shorten(&o.stderr, 300)}));
        };
        if o.hung {
            return fail("the program does not end", String::new());
        }
        let zero = o.status == Some(0);
        if must == Some(true) && zero {
            return fail("a run that cannot deliver its report ends with status zero", String::new());
        }
        if zero {
            for (t, p) in &dest {
                if let Err(e) = t.judge(&read(&dir.0.join(p)), &j) {
                    fail("status zero without a complete report", format!("{t:?}: {e}"));
                }
            }
            if !quiet && plain_out {
                if let Err(e) = judge_text(&o.stdout, &j) {
                    fail("status zero without a complete report", format!("printed: {e}"));
                }
            }
        } else if fault == "none" || (quiet && kind == 6) {
            fail("a run that nothing stops fails", String::new());
        }
    });
}
