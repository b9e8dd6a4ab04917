//! Workloads run under sanitizers and the undefined-behaviour interpreter. What is judged is the
//! instrumentation (it ends the process); the values are other properties' business.
use crate::api::{self, Out, FRAME_METRICS, M, VIDEO_METRICS};
use crate::c_frame::{frame_l, par_cases, video_of};
use crate::ctx;
use crate::gen::*;
use crate::mock::*;
use crate::y4mfile::*;
use crate::{c_dec, c_frame, c_pipe};
use av_metrics::video::decode::{convert_chroma_data, Decoder};
use av_metrics::video::ChromaSamplePosition;
use av_metrics_decoders::y4m::new_decoder_from_file;
use serde_json::json;
use std::sync::Arc;

/// Every metric on buffers that end exactly where the visible samples end, so that any access
/// beyond them leaves the allocation.
fn tight_frames(stream: u64, n: usize, max: usize) {
    par_cases(stream, n, |r, i| {
        let depth = *r.pick(&[8, 8, 10, 12, 16, 9]);
        let cs = *r.pick(&[Cs420, Cs422, Cs444, Cs420, Cs422, Cs400]);
        // every width and height up to 40 in turn, then random ones
        let (w, h) = if r.chance(0.5) { (1 + i % 40, r.range(1, 40)) } else { (size(r, 1, max), size(r, 1, max)) };
        let p = Pair::gen(r, w, h, depth, cs);
        for m in FRAME_METRICS {
            let l = if r.chance(0.7) { Layout::tight() } else { Layout::random(r) };
            let o = frame_l(m, &p.a, &p.b, &l, &l, r);
            ctx::case(if p.trivial() { None } else { Some(ctx::fnv(&[p.hash(), m as u64])) });
            ctx::count(&format!("frame:{}:{}", m.name(), o.kind()), 1);
            ctx::count(&format!("layout:{:?}", l.kind), 1);
            if i % 97 == 0 && ctx::want_sample() {
                ctx::sample(json!({"metric": m.name(), "pair": p.desc(), "layout": format!("{l:?}"), "outcome": o.kind()}));
            }
        }
    });
}

pub fn c19() {
    ctx::ignore_values();
    tight_frames(1, ctx::n(1500, 40000), 150);
    let run = |what: &str, permille: u64, f: fn()| {
        let b = ctx::st().evals;
        ctx::scale(permille);
        f();
        let e = ctx::st().evals;
        ctx::count(&format!("executions:{what}"), e - b);
    };
    let t = if ctx::thorough() { 3 } else { 1 };
    run("layouts (C07 workload)", 500 * t, c_frame::c07);
    run("vector and portable paths (C06 workload)", 150 * t, c_frame::c06);
    run("all sizes, hostile contents (C25 workload)", 300 * t, c_frame::c25);
    run("wrong inputs (C10 workload)", 300 * t, c_frame::c10);
    run("Y4M decoding (C15 workload)", 300 * t, c_dec::c15);
    run("damaged Y4M (C16 workload)", 300 * t, c_dec::c16);
    run("chroma conversion (C17 workload)", 500 * t, c_dec::c17);
    #[cfg(feature = "ffmpeg")]
    run("FFmpeg decoding (C18 workload)", 1000 * t, c_dec::c18);
    run("video comparisons (C11 workload)", 100 * t, c_pipe::c11);
    run("seeking (C23 workload)", 100 * t, c_pipe::c23);
    ctx::rule("the real code built with the sanitizer, debug assertions and overflow checks, run on: every metric over pictures in allocations that end exactly at the last sample and in random layouts (all widths and heights to 40, larger ones, all formats and depths, defined and undefined sizes, mismatched inputs), chroma conversion with exact-length sources, valid and damaged Y4M files, FFmpeg decoding, whole comparisons; distinct non-trivial by content and metric; a sanitizer report or an abort of a safety assertion is the violation");
}

/// A small, mostly sequential workload for the interpreter.
pub fn small(id: &str) {
    ctx::st().id = id[..3].into();
    ctx::ignore_values();
    ctx::scale(1000);
    let thorough = ctx::thorough();
    // shards run side by side: the interpreter is slow and single-threaded
    let (shard, shards) = std::env::var("VERIF_SHARD")
        .ok()
        .and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(1))))
        .unwrap_or((0usize, 1usize));
    let mut task = 0usize;
    let mut mine = || {
        task += 1;
        (task - 1) % shards == shard
    };
    if id == "C19" {
        let sizes: &[(usize, usize)] = if thorough {
            &[(1, 1), (2, 3), (3, 2), (7, 5), (8, 8), (9, 9), (15, 3), (16, 16), (17, 18), (23, 4), (33, 33)]
        } else {
            &[(1, 2), (7, 3), (9, 8), (17, 2)]
        };
        for (i, (w, h)) in sizes.iter().enumerate() {
            for cs in COLOR_CS {
                for m in FRAME_METRICS {
                    // PSNR-HVS and MS-SSIM need larger pictures to give a score
                    let grow = if thorough || cs != Cs444 || i != 0 { 1 } else { m.min_side() };
                    let (w, h) = ((*w).max(grow), (*h).max(grow));
                    if !mine() {
                        continue;
                    }
                    let mut r = ctx::rng(task_seed(i, m, cs));
                    let depth = if (i + dec(cs).1 + m as usize) % 2 == 0 { 8 } else { *r.pick(&[10, 12]) };
                    let p = Pair::of(&mut r, w, h, depth, cs, Content::Noise, Distort::SmallNoise);
                    let l = if r.chance(0.7) { Layout::tight() } else { Layout::plain() };
                    let t = std::time::Instant::now();
                    let o = frame_l(m, &p.a, &p.b, &l, &l, &mut r);
                    ctx::case(Some(ctx::fnv(&[p.hash(), m as u64])));
                    ctx::count(&format!("frame:{}:{}", m.name(), o.kind()), 1);
                    eprintln!("{} {} {:?} {} {:.1}s", p.desc(), m.name(), l.kind, o.kind(), t.elapsed().as_secs_f64());
                    if ctx::want_sample() {
                        ctx::sample(json!({"metric": m.name(), "pair": p.desc(), "layout": format!("{:?}", l.kind), "outcome": o.kind()}));
                    }
                }
            }
        }
    }
    if id == "C19-alias" {
        for k in 0..if thorough { 16 } else { 8 } {
            if mine() {
                let mut r = ctx::rng(900 + k);
                chroma(&mut r, k as usize * 5, if thorough { 30 } else { 5 });
            }
        }
        for (i, t) in TAGS.iter().enumerate() {
            if t.cs != Cs400 && (thorough || i % 3 == 0) && mine() {
                file(&mut ctx::rng(800 + i as u64), i);
            }
        }
    }
    let ms: &[M] = if id == "C19-alias" { &[] } else if thorough || id == "C20" { &VIDEO_METRICS } else { &[M::Psnr, M::Ciede] };
    for m in ms {
        for k in 0..if thorough && id == "C20" { 6 } else { 1 } {
            if !mine() {
                continue;
            }
            let mut r = ctx::rng(700 + k);
            let t = std::time::Instant::now();
            let (w, h) = if m.min_side() > 1 { (m.min_side(), m.min_side()) } else { (3, 2) };
            let ps: Vec<Pair> = (0..2 + k % 2).map(|_| Pair::of(&mut r, w, h, 8, Cs444, Content::Noise, Distort::SmallNoise)).collect();
            let o = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap().install(|| {
                video_of(*m, ps.iter().map(|p| p.a.clone()).collect(), ps.iter().map(|p| p.b.clone()).collect(), None)
            });
            ctx::case(Some(ctx::fnv(&[ps[0].hash(), *m as u64, 9])));
            ctx::count(&format!("video:{}:{}", m.name(), o.kind()), 1);
            eprintln!("video {} {} {:.1}s", m.name(), o.kind(), t.elapsed().as_secs_f64());
        }
    }
    ctx::rule("interpreted executions (every load, store, cast and synchronisation checked): frame metrics on tight and library layouts with widths off the vector length, chroma conversion with exact-length sources, Y4M files whole and damaged, whole comparisons on a small pool; distinct by content and metric");
}
fn task_seed(i: usize, m: M, cs: v_frame::pixel::ChromaSampling) -> u64 {
    (i * 100 + m as usize * 10 + dec(cs).0 + dec(cs).1) as u64 + 10_000
}
fn chroma(r: &mut ctx::Rng, from: usize, n: usize) {
    for i in from..from + n {
        let (w, h) = (1 + i % 23, r.range(1, 3));
        let two = r.chance(0.5);
        let depth = if two { *r.pick(&[9, 10, 12, 16]) } else { 8 };
        let stride = w + r.below(4);
        let by = if two { 2 } else { 1 };
        let len = (stride * (h - 1) + w) * by;
        let src: Vec<u8> = (0..len).map(|k| if two && k % 2 == 1 { r.below(1 << (depth - 8)) as u8 } else { r.below(256) as u8 }).collect();
        let pos = *r.pick(&[ChromaSamplePosition::Vertical, ChromaSamplePosition::Vertical, ChromaSamplePosition::Colocated, ChromaSamplePosition::Bilateral]);
        let blank = Pic::blank(w, h, depth, Cs444);
        let l = if r.chance(0.5) { Layout::tight() } else { Layout::random(r) };
        let o = if two {
            let mut f = blank.frame_in::<u16>(&l, r);
            ctx::catch(|| convert_chroma_data(&mut f.planes[1], pos, depth, &src, stride * 2, 2))
        } else {
            let mut f = blank.frame_in::<u8>(&l, r);
            ctx::catch(|| convert_chroma_data(&mut f.planes[1], pos, depth, &src, stride, 1))
        };
        ctx::case(Some(ctx::fnv(&[i as u64, w as u64, depth as u64])));
        ctx::count(if o.is_ok() { "chroma conversions" } else { "chroma conversions that panicked" }, 1);
    }
}
fn scratch(data: &[u8]) -> std::path::PathBuf {
    let d = std::env::var("VERIF_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let p = d.join(format!("stream-{}.y4m", std::process::id()));
    std::fs::write(&p, data).expect("HARNESS: scratch file");
    p
}
fn read_file(p: &std::path::Path) -> Result<usize, String> {
    ctx::catch(|| {
        let mut d = new_decoder_from_file(p)?;
        let mut n = 0;
        if d.get_bit_depth() > 8 {
            while n < 9 && d.read_video_frame::<u16>().is_some() {
                n += 1;
            }
        } else {
            while n < 9 && d.read_video_frame::<u8>().is_some() {
                n += 1;
            }
        }
        Ok(n)
    })
    .unwrap_or_else(Err)
}
fn file(r: &mut ctx::Rng, i: usize) {
    let t = &TAGS[i];
    let (w, h) = (r.range(1, 9), r.range(1, 4));
    let fr: Vec<Pic> = (0..2).map(|_| Pic::gen(r, w, h, t.depth, t.cs, Content::Noise)).collect();
    let mut s = stream(t.tag, &fr);
    let n = read_file(&scratch(&s));
    ctx::case(Some(ctx::fnv(&[i as u64, fr[0].hash()])));
    ctx::count(&format!("y4m files:{}", if n == Ok(2) { "whole" } else { "not read" }), 1);
    s.truncate(s.len() - 1 - r.below(s.len() / 2));
    let _ = read_file(&scratch(&s));
    ctx::case(None);
    ctx::count("y4m files:damaged", 1);
}
/// Monochrome under the interpreter, apart from the rest: the frame type itself allocates zero bytes for it.
pub fn mono() {
    ctx::st().id = "C19".into();
    ctx::ignore_values();
    let mut r = ctx::rng(78);
    let p = Pair::of(&mut r, 9, 9, 8, Cs400, Content::Noise, Distort::SmallNoise);
    for m in FRAME_METRICS {
        let o = api::pics(m, &p.a, &p.b);
        ctx::case(Some(ctx::fnv(&[p.hash(), m as u64])));
        ctx::count(&format!("frame:{}:{}", m.name(), o.kind()), 1);
    }
}

/// The first calls of a process, made by several threads at the same moment: whatever is set up on
/// first use is set up in a race.
pub fn c20_cold() {
    ctx::st().id = "C20".into();
    ctx::ignore_values();
    let mut r = ctx::rng(2020);
    let depth = *r.pick(&[8, 8, 8, 10, 10, 12]);
    let cs = *r.pick(&ALL_CS);
    let p = Arc::new(Pair::of(&mut r, 16 << 1, 16 << 1, depth, cs, Content::Noise, Distort::SmallNoise));
    let scenario = r.below(5);
    let gate = Arc::new(std::sync::Barrier::new(6));
    let mut hs = vec![];
    for t in 0..6usize {
        let (p, gate, mut rr) = (p.clone(), gate.clone(), r.fork());
        hs.push(std::thread::spawn(move || {
            // pools and inputs are made before the gate, so that nothing orders the threads after it
            let pool = rayon::ThreadPoolBuilder::new().num_threads(1 + t % 2).build().expect("HARNESS: pool");
            let n = 2 + t % 3;
            let frames: Vec<(Arc<Vec<Pic>>, Arc<Vec<Pic>>)> =
                (0..2).map(|_| (Arc::new(vec![p.a.clone(); n]), Arc::new(vec![p.b.clone(); n]))).collect();
            let file = stream(TAGS[t % TAGS.len()].tag, &[Pic::gen(&mut rr, 9, 6, TAGS[t % TAGS.len()].depth, TAGS[t % TAGS.len()].cs, Content::Noise)]);
            let file = MemFile::new(&file);
            gate.wait();
            let mut made = 0u64;
            let mut order: Vec<usize> = (0..7).collect();
            if scenario != 0 {
                order.rotate_left(rr.below(7));
            }
            for q in order {
                match scenario {
                    // every thread the same metric first, or different ones; frames or videos
                    0 | 1 => {
                        let (a, b) = &frames[0];
                        let log = Arc::new(Log::default());
                        let mut d1 = Mock::new(a.clone(), 1, log.clone());
                        let mut d2 = Mock::new(b.clone(), 2, log);
                        let _ = pool.install(|| api::video(VIDEO_METRICS[q], &mut d1, &mut d2, None, |_| {}));
                    }
                    2 => {
                        let (a, b) = &frames[1];
                        let log = Arc::new(Log::default());
                        let mut d1 = Mock::new(a.clone(), 1, log.clone());
                        let mut d2 = Mock::new(b.clone(), 2, log);
                        // the global pool, started by this very call
                        let _ = api::video(VIDEO_METRICS[q], &mut d1, &mut d2, None, |_| {});
                    }
                    3 => {
                        let _ = api::pics(FRAME_METRICS[q % 6], &p.a, &p.b);
                    }
                    _ => {
                        let _ = ctx::catch(|| {
                            if let Ok(mut d) = new_decoder_from_file(file.path()) {
                                let _ = c_dec::read_all(&mut d, false, 3);
                            }
                        });
                        let _ = api::pics(FRAME_METRICS[q % 6], &p.a, &p.b);
                    }
                }
                made += 1;
            }
            made
        }));
    }
    let n: u64 = hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).sum();
    ctx::case(Some(ctx::fnv(&[p.hash(), scenario as u64])));
    ctx::count(&format!("cold start scenario {scenario}"), 1);
    ctx::count("first calls in a race", n);
}

pub fn c20() {
    ctx::ignore_values();
    let thorough = ctx::thorough();
    // many frame comparisons at the same time
    tight_frames(5, ctx::n(150, 4000), 60);
    // the same pictures compared by all threads at once: shared inputs, every metric side by side
    let groups = ctx::n(40, 600);
    let mut r = ctx::rng(20);
    let mut orders = std::collections::HashSet::new();
    for g in 0..groups {
        let (depth, cs) = (*r.pick(&[8, 10, 12]), *r.pick(&ALL_CS));
        let (xd, yd) = dec(cs);
        let (w, h, n) = (r.range(16 << xd, 44), r.range(16 << yd, 44), r.range(1, 14));
        let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(&mut r, w, h, depth, cs)).collect();
        let a: Arc<Vec<Pic>> = Arc::new(ps.iter().map(|p| p.a.clone()).collect());
        let b: Arc<Vec<Pic>> = Arc::new(ps.iter().map(|p| p.b.clone()).collect());
        let k = r.range(1, 8);
        let shared = rayon::ThreadPoolBuilder::new().num_threads(k).build().expect("HARNESS: pool");
        let seeds: Vec<ctx::Rng> = (0..7).map(|_| r.fork()).collect();
        let logs: Vec<Arc<Log>> = (0..7).map(|_| Arc::new(Log::default())).collect();
        let outs: Vec<Out> = std::thread::scope(|s| {
            let hs: Vec<_> = VIDEO_METRICS
                .iter()
                .zip(seeds)
                .zip(&logs)
                .map(|((m, mut rr), log)| {
                    let (a, b, shared) = (a.clone(), b.clone(), &shared);
                    s.spawn(move || {
                        let mut d1 = Mock::new(a, 1, log.clone());
                        let mut d2 = Mock::new(b, 2, log.clone());
                        d1.pace = *rr.pick(&[Pace::Fast, Pace::Jitter(200), Pace::Yield(30)]);
                        d2.pace = *rr.pick(&[Pace::Fast, Pace::Jitter(200), Pace::Yield(30)]);
                        let l2 = log.clone();
                        let cb = move |v: usize| l2.push(Ev::Cb(v));
                        if g % 2 == 0 {
                            shared.install(|| api::video(*m, &mut d1, &mut d2, None, cb))
                        } else {
                            api::video(*m, &mut d1, &mut d2, None, cb)
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
        });
        for ((m, o), log) in VIDEO_METRICS.iter().zip(&outs).zip(&logs) {
            ctx::case(Some(ctx::fnv(&[a[0].hash(), *m as u64, n as u64])));
            ctx::count(&format!("video:{}:{}", m.name(), o.kind()), 1);
            ctx::count("events", log.all().len() as u64);
            orders.insert(c_pipe::schedule_hash(&log.all()));
        }
        if ctx::want_sample() {
            ctx::sample(json!({"group": g, "pool": k, "frames": n, "format": a[0].desc(), "outcomes": outs.iter().map(|o| o.kind()).collect::<Vec<_>>()}));
        }
    }
    let run = |what: &str, permille: u64, f: fn()| {
        let b = ctx::st().evals;
        ctx::scale(permille);
        f();
        let e = ctx::st().evals;
        ctx::count(&format!("executions:{what}"), e - b);
    };
    let t = if thorough { 3 } else { 1 };
    run("pairing (C11 workload)", 100 * t, c_pipe::c11);
    run("schedules and concurrent comparisons (C14 workload)", 100 * t, c_pipe::c14);
    run("faults (C12 workload)", 100 * t, c_pipe::c12);
    run("Y4M decoding on many threads (C15 workload)", 100, c_dec::c15);
    run("chroma conversion on many threads (C17 workload)", 30, c_dec::c17);
    ctx::count("distinct_event_orders_of_concurrent_runs", orders.len() as u64);
    ctx::st().level = "exploration".into();
    ctx::rule("the real code and the standard library built with ThreadSanitizer, run on: frame comparisons of every metric on eight threads at once, all seven video comparisons at once over shared frames in one pool or the global one, with paced decoders, pools of 1..16 workers, faulting runs, several decoders at once; distinct by content, metric and length; a race report is the violation");
}
