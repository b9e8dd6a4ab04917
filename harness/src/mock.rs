//! Scripted decoders with event logs, fault injection and delays; hang detection by quiescence.
use crate::ctx::{self, Rng};
use crate::gen::Pic;
use av_metrics::video::decode::{Decoder, Rational, VideoDetails};
use av_metrics::video::ChromaSamplePosition;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use v_frame::frame::Frame;
use v_frame::pixel::Pixel;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// (decoder 1 or 2, position, delivered?)
    Read(u8, usize, bool),
    Cb(usize),
}
#[derive(Default)]
pub struct Log {
    pub ev: Mutex<Vec<Ev>>,
    pub reads_after_end: AtomicUsize,
    pub hurry: AtomicBool,
}
impl Log {
    pub fn push(&self, e: Ev) {
        self.ev.lock().unwrap_or_else(|e| e.into_inner()).push(e);
    }
    pub fn all(&self) -> Vec<Ev> {
        self.ev.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// panic instead of delivering frame k
    Panic(usize),
    /// deliver frame k with other dimensions
    Resize(usize),
    /// deliver frame k with one chroma plane of other dimensions
    ChromaResize(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pace {
    Fast,
    /// sleep up to n microseconds per frame
    Jitter(u64),
    /// long stall at one position (micros)
    StallAt(usize, u64),
    /// busy yields
    Yield(usize),
}

/// A long sleep in slices, so that the quiescence monitor sees the process alive.
pub fn stall(micros: u64) {
    let end = Instant::now() + Duration::from_micros(micros);
    while let Some(d) = end.checked_duration_since(Instant::now()) {
        std::thread::sleep(d.min(Duration::from_millis(100)));
    }
}

pub struct Mock {
    pub frames: Arc<Vec<Pic>>,
    pub pos: usize,
    pub who: u8,
    pub log: Arc<Log>,
    pub fault: Option<Fault>,
    pub pace: Pace,
    pub rng: Rng,
    pub details: VideoDetails,
}
impl Mock {
    pub fn new(frames: Arc<Vec<Pic>>, who: u8, log: Arc<Log>) -> Mock {
        let p = frames.first().cloned().unwrap_or_else(|| Pic::blank(16, 16, 8, crate::gen::Cs420));
        let details = VideoDetails {
            width: p.w,
            height: p.h,
            bit_depth: p.depth,
            chroma_sampling: p.cs,
            chroma_sample_position: ChromaSamplePosition::Unknown,
            time_base: Rational::new(1, 25),
            luma_padding: 0,
        };
        Mock { frames, pos: 0, who, log, fault: None, pace: Pace::Fast, rng: Rng::new(who as u64), details }
    }
}
fn enlarge(p: &Pic, all: bool) -> Pic {
    let mut o = if all { Pic::blank(p.w + 8, p.h, p.depth, p.cs) } else { p.clone() };
    if !all {
        let w = p.p[1].w + 8;
        let h = p.p[1].h.max(1);
        o.p[1] = crate::gen::Buf { w, h, d: vec![7; w * h] };
    }
    o
}
impl Decoder for Mock {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        if !self.log.hurry.load(Ordering::Relaxed) {
            match self.pace {
                Pace::Fast => {}
                Pace::Jitter(n) => std::thread::sleep(Duration::from_micros(self.rng.below(n as usize + 1) as u64)),
                Pace::StallAt(k, n) => {
                    if k == self.pos {
                        stall(n)
                    }
                }
                Pace::Yield(n) => {
                    for _ in 0..self.rng.below(n + 1) {
                        std::thread::yield_now()
                    }
                }
            }
        }
        let i = self.pos;
        if i >= self.frames.len() {
            self.log.push(Ev::Read(self.who, i, false));
            let k = self.log.reads_after_end.fetch_add(1, Ordering::SeqCst);
            if k > 5000 {
                ctx::violation(
                    "input is read again and again after its end (no progress towards termination)",
                    json!({"frames": self.frames.len(), "reads_after_end": k}),
                );
                ctx::finish();
            }
            return None;
        }
        self.pos += 1;
        if let Some(Fault::Panic(k)) = self.fault {
            if k == i {
                panic!("injected decoder fault");
            }
        }
        let p = &self.frames[i];
        let f = match self.fault {
            Some(Fault::Resize(k)) if k == i => enlarge(p, true).frame::<T>(),
            Some(Fault::ChromaResize(k)) if k == i => enlarge(p, false).frame::<T>(),
            _ => p.frame::<T>(),
        };
        self.log.push(Ev::Read(self.who, i, true));
        Some(f)
    }
    fn get_bit_depth(&self) -> usize {
        self.details.bit_depth
    }
    fn get_video_details(&self) -> VideoDetails {
        self.details
    }
}

fn threads_snapshot(skip: &[i32]) -> (bool, u64, Vec<String>) {
    let mut all_asleep = true;
    let mut switches = 0u64;
    let mut desc = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            let tid: i32 = e.file_name().to_string_lossy().parse().unwrap_or(0);
            if skip.contains(&tid) {
                continue;
            }
            let st = std::fs::read_to_string(e.path().join("status")).unwrap_or_default();
            let mut state = '?';
            for l in st.lines() {
                if let Some(v) = l.strip_prefix("State:") {
                    state = v.trim().chars().next().unwrap_or('?');
                }
                if l.contains("ctxt_switches:") {
                    switches += l.rsplit(':').next().unwrap().trim().parse::<u64>().unwrap_or(0);
                }
            }
            if state != 'S' {
                all_asleep = false;
            }
            desc.push(format!("{tid}:{state}"));
        }
    }
    (all_asleep, switches, desc)
}

pub enum Waited<R> {
    Done(R),
    /// nothing runs any more, or it runs without coming to an end
    Stuck(String),
    /// gave up without evidence either way
    Inconclusive,
}
fn cpu_s() -> f64 {
    let mut u: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut u) };
    (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as f64 + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) as f64 / 1e6
}
/// Watches the whole process: all threads asleep without one context switch for several seconds,
/// or much processor time used without any progress.
pub struct Monitor {
    last: u64,
    quiet: u32,
    mark: (u64, f64, Instant),
}
impl Monitor {
    pub fn new() -> Monitor {
        Monitor { last: 0, quiet: 0, mark: (0, cpu_s(), Instant::now()) }
    }
    /// Call every 400 ms or so; `progress` is any number that changes when work gets done.
    pub fn poll(&mut self, progress: u64) -> Option<String> {
        let me = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
        let (asleep, sw, desc) = threads_snapshot(&[me]);
        if asleep && sw == self.last && progress == self.mark.0 {
            self.quiet += 1;
        } else {
            self.quiet = 0;
        }
        self.last = sw;
        if self.quiet >= 15 {
            return Some(format!("deadlock: every thread asleep for {} polls without a context switch ({})", self.quiet, desc.join(" ")));
        }
        if progress != self.mark.0 {
            self.mark = (progress, cpu_s(), Instant::now());
        } else if self.mark.2.elapsed() > Duration::from_secs(90) && cpu_s() - self.mark.1 > 60.0 {
            return Some("livelock: a minute of processor time without progress on a tiny workload".into());
        }
        None
    }
}

/// Ends the check with a violation when the process gets stuck.
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut m = Monitor::new();
        loop {
            std::thread::sleep(Duration::from_millis(400));
            let p = ctx::st().evals;
            if let Some(e) = m.poll(p) {
                ctx::violation("a comparison does not come to an end", json!({"observed": e, "cases_before": p}));
                ctx::finish();
            }
        }
    });
}

/// Runs `f` in its own thread and watches the process for quiescence.
pub fn watched<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Waited<R> {
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let r = f();
        let _ = tx.send(r);
    });
    let start = Instant::now();
    let mut m = Monitor::new();
    // the first wait does not poll: nearly all runs end within it
    let mut wait = Duration::from_millis(1000);
    loop {
        match rx.recv_timeout(wait) {
            Ok(r) => {
                if let Ok(h) = h {
                    let _ = h.join();
                }
                return Waited::Done(r);
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return Waited::Inconclusive,
            Err(_) => {}
        }
        wait = Duration::from_millis(400);
        if let Some(e) = m.poll(0) {
            return Waited::Stuck(e);
        }
        if start.elapsed() > Duration::from_secs(400) {
            return Waited::Inconclusive;
        }
    }
}
