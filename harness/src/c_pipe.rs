//! Checks on the video pipeline: pairing, termination, protocol, scheduling independence, seeking.
use crate::api::{self, agree, lin, near, near_err, Out, M, VIDEO_METRICS};
use crate::c_frame::par_cases;
use crate::ctx::{self, Rng};
use crate::gen::*;
use crate::mock::*;
use crate::refm;
use crate::y4mfile::*;
use av_metrics::video::decode::Decoder;
use serde_json::json;
use std::collections::HashSet;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

/// Small coloured pictures every metric is defined for.
fn dims(r: &mut Rng, cs: v_frame::pixel::ChromaSampling, span: usize) -> (usize, usize) {
    let (xd, yd) = dec(cs);
    let (a, b) = (16 << xd, 16 << yd);
    (r.range(a, a + span), r.range(b, b + span))
}
fn seq(r: &mut Rng, w: usize, h: usize, depth: usize, cs: v_frame::pixel::ChromaSampling, n: usize) -> Vec<Pic> {
    (0..n)
        .map(|_| {
            let c = *r.pick(&[Content::Waves, Content::Blocks, Content::Noise, Content::Gradient]);
            Pic::gen(r, w, h, depth, cs, c)
        })
        .collect()
}
/// Second video: per frame a different amount of distortion, some frames untouched.
fn paired(r: &mut Rng, a: &[Pic]) -> Vec<Pic> {
    let mode = r.below(4);
    let hit = r.below(a.len().max(1));
    a.iter()
        .enumerate()
        .map(|(i, p)| match mode {
            // every pair equal: any mispairing shows as a lower score
            0 => p.clone(),
            1 if i != hit => p.clone(),
            _ => {
                let d = *r.pick(&[Distort::SmallNoise, Distort::BigNoise, Distort::Offset, Distort::Quantise, Distort::Blur, Distort::Same, Distort::Contrast]);
                p.distorted(r, d)
            }
        })
        .collect()
}
/// The documented aggregate, from the frame scores of the right pairs.
fn aggregate(m: M, a: &[Pic], b: &[Pic]) -> Result<Vec<f64>, String> {
    if m == M::Psnr {
        let mut e = [0u128; 3];
        let mut n = [0u128; 3];
        for (x, y) in a.iter().zip(b) {
            for k in 0..3 {
                let (s, c) = refm::sqerr(&x.p[k], &y.p[k]);
                e[k] += s;
                n[k] += c;
            }
        }
        let mx = a[0].max();
        let mut v: Vec<f64> = (0..3).map(|k| refm::psnr_db(e[k], n[k], mx)).collect();
        v.push(refm::psnr_db(e.iter().sum(), n.iter().sum(), mx));
        return Ok(v);
    }
    let fs: Vec<Vec<f64>> = a
        .iter()
        .zip(b)
        .map(|(x, y)| {
            let o = api::pics(m, x, y);
            o.ok().map(|v| v.to_vec()).ok_or(format!("{o:?}"))
        })
        .collect::<Result<_, _>>()?;
    let n = fs.len() as f64;
    Ok((0..fs[0].len())
        .map(|k| {
            if m.is_db_err() {
                -10.0 * (fs.iter().map(|v| lin(v[k])).sum::<f64>() / n).log10()
            } else {
                fs.iter().map(|v| v[k]).sum::<f64>() / n
            }
        })
        .collect())
}
fn same_aggregate(m: M, v: &[f64], w: &[f64]) -> bool {
    v.len() == w.len()
        && v.iter().zip(w).all(|(x, y)| match m {
            M::Ssim | M::Msssim => near_err(*x, *y, 1e-11, 1e-8),
            M::Hvs => near_err(*x, *y, 1e-16, 1e-8),
            M::Ciede | M::CiedeScalar => near(*x, *y, 1e-6),
            _ => near(*x, *y, 1e-8),
        })
}
fn pace(r: &mut Rng, n: usize) -> Pace {
    match r.below(6) {
        0 | 1 | 2 => Pace::Fast,
        3 => Pace::Jitter(300),
        4 => Pace::StallAt(r.below(n.max(1)), 8000),
        _ => Pace::Yield(50),
    }
}
fn limit(r: &mut Rng, n: usize) -> Option<usize> {
    match r.below(6) {
        0 | 1 => None,
        2 => Some(r.range(1, n.max(1))),
        3 => Some(n + r.below(5)),
        4 => Some(usize::MAX),
        _ => Some(*r.pick(&[1, 2, n.max(1), n + 1, usize::MAX - 1, usize::MAX / 2 + 1, 1 << 40])),
    }
}
fn pool(k: usize) -> Arc<rayon::ThreadPool> {
    static POOLS: Mutex<Vec<(usize, Arc<rayon::ThreadPool>)>> = Mutex::new(Vec::new());
    let mut g = POOLS.lock().unwrap();
    if let Some(p) = g.iter().find(|p| p.0 == k) {
        return p.1.clone();
    }
    let p = Arc::new(rayon::ThreadPoolBuilder::new().num_threads(k).build().expect("HARNESS: pool"));
    g.push((k, p.clone()));
    p
}
fn fresh_pool(k: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(k).build().expect("HARNESS: pool")
}
pub fn schedule_hash(ev: &[Ev]) -> u64 {
    let v: Vec<u64> = ev
        .iter()
        .map(|e| match e {
            Ev::Read(w, i, d) => (*w as u64) << 40 | (*i as u64) << 1 | *d as u64,
            Ev::Cb(i) => 1 << 50 | (*i as u64 & 0xffff_ffff),
        })
        .collect();
    ctx::fnv(&v)
}

/// Comparisons whose decoder, callback or worker pool stands still for a long time, running beside
/// the rest of the check: whatever time-out the code may contain, none may change the result.
fn slow_runs(fault: bool) -> Vec<std::thread::JoinHandle<()>> {
    let mut hs = vec![];
    let mut tenths = vec![3u64, 7, 14, 26, 42, 65, 110, 160];
    if ctx::thorough() {
        tenths.extend([320, 650, 1250]);
    }
    let mut r = ctx::rng(0x510);
    for (j, t) in tenths.into_iter().enumerate() {
        for (q, m) in VIDEO_METRICS.into_iter().enumerate() {
            let n = r.range(3, 12);
            let (depth, cs) = (if r.chance(0.7) { 8 } else { 10 }, *r.pick(&[Cs420, Cs444, Cs422]));
            let (w, h) = dims(&mut r, cs, 4);
            let a = seq(&mut r, w, h, depth, cs, n);
            let mut b: Vec<Pic> = a.iter().map(|p| p.distorted(&mut r, Distort::BigNoise)).collect();
            let at = match r.below(4) {
                0 => 0,
                1 => n - 1,
                _ => r.below(n),
            };
            // 0, 1: a decoder stalls; 2: the callback stalls; 3: the other workers are busy
            let mode = (j + q) % 4;
            if fault {
                let k = r.range(at.min(n - 1), n - 1);
                b[k] = Pic::blank(w + 16, h, depth, cs);
                if k == 0 {
                    continue;
                }
            }
            let want = if fault { vec![] } else { aggregate(m, &a, &b).unwrap_or_default() };
            let us = t * 100_000;
            hs.push(std::thread::spawn(move || {
                let log = Arc::new(Log::default());
                let mut d1 = Mock::new(Arc::new(a), 1, log.clone());
                let mut d2 = Mock::new(Arc::new(b), 2, log);
                match mode {
                    0 => d1.pace = Pace::StallAt(at, us),
                    1 => d2.pace = Pace::StallAt(at, us),
                    _ => {}
                }
                let k = if mode == 3 { 2 } else { 1 + q % 3 };
                let p = fresh_pool(k);
                if mode == 3 {
                    p.spawn(move || stall(us));
                }
                let cb = move |v: usize| {
                    if mode == 2 && v == at + 1 {
                        stall(us);
                    }
                };
                let o = p.install(|| api::video(m, &mut d1, &mut d2, None, cb));
                let how = ["first decoder", "second decoder", "progress callback", "a worker"][mode];
                let desc = json!({"metric": m.name(), "frames": n, "stalled": how, "at": at, "seconds": t as f64 / 10.0});
                ctx::case(Some(ctx::fnv(&[0x510, t, q as u64, n as u64, at as u64])));
                ctx::count(&format!("stalled:{how}"), 1);
                let ok = match &o {
                    Out::Ok(v) => !fault && same_aggregate(m, v, &want),
                    Out::Err(..) => fault,
                    Out::Panic(_) => false,
                };
                if !ok {
                    let what = if fault { "a bad frame after a long stall is not reported" } else { "a long stall changes the result" };
                    ctx::violation(what, json!({"run": desc, "got": format!("{o:?}"), "expected": want}));
                }
            }));
        }
    }
    hs
}
fn join_all(hs: Vec<std::thread::JoinHandle<()>>) {
    for h in hs {
        h.join().expect("HARNESS: slow run");
    }
}

pub fn c11() {
    ctx::rule("video comparisons of all metrics with 1..40 frames per input, unequal lengths, limits of every kind, pools of 1..9 workers, paced decoders; result compared with the documented aggregate of the frame scores of pairs (i,i), and the read log with the frames to be used; distinct by content, metric, lengths and limit");
    watchdog();
    let slow = slow_runs(false);
    par_cases(1, ctx::n(1500, 30000), |r, i| {
        let m = VIDEO_METRICS[i % 7];
        let (depth, cs) = (*r.pick(&[8, 8, 10, 12]), *r.pick(&ALL_CS));
        let (w, h) = dims(r, cs, 12);
        let n = r.range(1, if i % 5 == 0 { 40 } else { 9 });
        let (a, mut b);
        let a0 = seq(r, w, h, depth, cs, n);
        b = paired(r, &a0);
        // unequal lengths
        let mut a1 = a0;
        match r.below(4) {
            0 => b.extend(seq(r, w, h, depth, cs, r.clone().range(1, 5))),
            1 => a1.extend(seq(r, w, h, depth, cs, r.clone().range(1, 5))),
            _ => {}
        }
        a = a1;
        let lim = limit(r, n);
        let used = lim.map_or(n, |l| l.min(n));
        let want = match aggregate(m, &a[..used], &b[..used]) {
            Ok(v) => v,
            Err(e) => {
                ctx::violation("a frame pair has no score", json!({"case": i, "metric": m.name(), "outcome": e}));
                return;
            }
        };
        let threads = r.range(1, 9);
        let log = Arc::new(Log::default());
        let (la, lb) = (a.len(), b.len());
        let mut d1 = Mock::new(Arc::new(a), 1, log.clone());
        let mut d2 = Mock::new(Arc::new(b), 2, log.clone());
        d1.pace = pace(r, n);
        d2.pace = pace(r, n);
        d1.rng = r.fork();
        d2.rng = r.fork();
        let o = pool(threads).install(|| api::video(m, &mut d1, &mut d2, lim, |_| {}));
        let desc = json!({"case": i, "metric": m.name(), "frames": [la, lb], "common": n, "limit": format!("{lim:?}"), "threads": threads, "size": [w, h], "depth": depth, "format": cs_name(cs)});
        ctx::case(Some(ctx::fnv(&[d1.frames[0].hash(), m as u64, la as u64, lb as u64, used as u64])));
        ctx::count("pairs_scored", used as u64);
        ctx::count(&format!("metric_{}", m.name()), 1);
        ctx::count(&format!("workers_{threads}"), 1);
        match &o {
            Out::Ok(v) if same_aggregate(m, v, &want) => {}
            o => ctx::violation("result is not the aggregate of the pairs", json!({"run": desc, "got": format!("{o:?}"), "expected": want})),
        }
        // frames delivered by each decoder: in order, every used one read once
        let ev = log.all();
        for who in 1..=2u8 {
            let got: Vec<usize> = ev.iter().filter_map(|e| matches!(e, Ev::Read(q, _, true) if *q == who).then(|| if let Ev::Read(_, k, _) = e { *k } else { 0 })).collect();
            if got.len() < used || got.iter().enumerate().any(|(j, k)| j != *k) {
                ctx::violation("input not read frame by frame", json!({"run": desc, "decoder": who, "reads": got}));
            }
        }
        if i % 53 == 0 {
            ctx::sample(json!({"run": desc, "score": format!("{o:?}")}));
        }
    });
    // long videos: many more frames than workers
    let reps = ctx::n(7, 42);
    for i in 0..reps {
        let mut r = ctx::rng(900_000 + i as u64);
        let m = VIDEO_METRICS[i % 7];
        let n = ctx::n(250, 1500);
        let a: Vec<Pic> = seq(&mut r, 32, 32, 8, Cs420, 24);
        let b = paired(&mut r, &a);
        let (a, b): (Vec<Pic>, Vec<Pic>) = (0..n).map(|_| r.below(24)).map(|k| (a[k].clone(), b[k].clone())).unzip();
        let want = aggregate(m, &a, &b).unwrap_or_default();
        let log = Arc::new(Log::default());
        let mut d1 = Mock::new(Arc::new(a), 1, log.clone());
        let mut d2 = Mock::new(Arc::new(b), 2, log);
        let o = api::video(m, &mut d1, &mut d2, None, |_| {});
        ctx::case(Some(ctx::fnv(&[d1.frames[0].hash(), m as u64, n as u64])));
        ctx::count("pairs_scored", n as u64);
        if !matches!(&o, Out::Ok(v) if same_aggregate(m, v, &want)) {
            ctx::violation("result of a long video is not the aggregate of the pairs", json!({"metric": m.name(), "frames": n, "got": format!("{o:?}"), "expected": want}));
        }
    }
    join_all(slow);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum F12 {
    None,
    Dec(u8, Fault),
    /// callback panics when called with this value
    Cb(usize),
}
pub fn c12() {
    ctx::st().level = "fault_enumeration".into();
    ctx::rule("video comparisons with one fault (frame of another size, chroma plane of another size, decoder panic, progress-callback panic incl. at the end marker) at every position class, in either input, 1..120 frames, pools of 1..9 workers, all metrics; each run watched until it returns or every thread of the process stays asleep; distinct by fault, position, length, pool, metric and depth");
    let total = ctx::n(2600, 30000);
    let slow = slow_runs(true);
    let mut r = ctx::rng(12);
    let mut scheds: HashSet<u64> = HashSet::new();
    for i in 0..total {
        let m = VIDEO_METRICS[i % 7];
        let threads = r.range(1, 9);
        let depth = if r.chance(0.7) { 8 } else { 10 };
        let cs = *r.pick(&[Cs420, Cs420, Cs444, Cs422]);
        let (w, h) = dims(&mut r, cs, 0);
        let n = if r.chance(0.35) { r.range(30, 120) } else { r.range(1, 14) };
        let k = match r.below(5) {
            0 => 0,
            1 => n - 1,
            2 => r.below(threads.min(n)),
            _ => r.below(n),
        };
        let who = r.range(1, 2) as u8;
        let fault = match r.below(10) {
            0 | 1 | 2 => F12::Dec(who, Fault::Resize(k)),
            3 => F12::Dec(who, Fault::ChromaResize(k)),
            4 | 5 => F12::Dec(who, Fault::Panic(k)),
            6 => F12::Cb(k + 1),
            7 => F12::Cb(usize::MAX),
            8 => F12::Dec(3, Fault::Resize(k)), // several bad frames, see below
            _ => F12::None,
        };
        let base = seq(&mut r, w, h, depth, cs, 3);
        let a: Vec<Pic> = (0..n).map(|j| base[j % 3].clone()).collect();
        let lim = if r.chance(0.3) { Some(n + r.below(3)) } else { None };
        let log = Arc::new(Log::default());
        let mut bv = a.clone();
        if let F12::Dec(3, _) = fault {
            // everything from k on is bad
            for p in bv.iter_mut().skip(k) {
                *p = Pic::blank(w + 16, h, depth, cs);
            }
        }
        let mut d1 = Mock::new(Arc::new(a), 1, log.clone());
        let mut d2 = Mock::new(Arc::new(bv), 2, log.clone());
        if k == 0 && matches!(fault, F12::Dec(3, _)) {
            d2.details = d1.details;
        }
        d1.pace = pace(&mut r, n);
        d2.pace = pace(&mut r, n);
        match fault {
            F12::Dec(1, f) => d1.fault = Some(f),
            F12::Dec(2, f) => d2.fault = Some(f),
            _ => {}
        }
        let l2 = log.clone();
        let fresh = i % 10 == 0;
        let res = watched(move || {
            let cb = move |v: usize| {
                l2.push(Ev::Cb(v));
                if fault == F12::Cb(v) {
                    panic!("injected callback fault");
                }
            };
            if fresh {
                fresh_pool(threads).install(|| api::video(m, &mut d1, &mut d2, lim, cb))
            } else {
                pool(threads).install(|| api::video(m, &mut d1, &mut d2, lim, cb))
            }
        });
        let desc = json!({"case": i, "metric": m.name(), "fault": format!("{fault:?}"), "frames": n, "threads": threads, "limit": lim, "format": cs_name(cs), "depth": depth});
        ctx::case(Some(ctx::hash_str(&format!("{fault:?} {n} {threads} {m:?} {depth}"))));
        scheds.insert(schedule_hash(&log.all()));
        let fk = match fault {
            F12::None => "none",
            F12::Dec(_, Fault::Resize(_)) => "resized frame",
            F12::Dec(_, Fault::ChromaResize(_)) => "resized chroma plane",
            F12::Dec(_, Fault::Panic(_)) => "decoder panic",
            F12::Cb(usize::MAX) => "callback panic at the end marker",
            F12::Cb(_) => "callback panic",
        };
        ctx::count(&format!("fault:{fk}"), 1);
        match res {
            Waited::Done(o) => {
                ctx::count(&format!("ended:{}", o.kind()), 1);
                let ok = match fault {
                    F12::None => matches!(o, Out::Ok(_)),
                    F12::Dec(_, Fault::Panic(_)) | F12::Cb(_) => !matches!(o, Out::Ok(_)),
                    _ => matches!(o, Out::Err(..)),
                };
                if !ok {
                    ctx::violation("run with a fault does not end with an error (or a clean run fails)", json!({"run": desc, "outcome": format!("{o:?}")}));
                }
            }
            Waited::Stuck(e) => {
                ctx::violation("the comparison never returns", json!({"run": desc, "observed": e}));
                ctx::finish();
            }
            Waited::Inconclusive => {
                ctx::count("inconclusive", 1);
            }
        }
        if i % 97 == 0 {
            ctx::sample(desc);
        }
        if ctx::enough() {
            break;
        }
    }
    join_all(slow);
    ctx::count("distinct_event_orders", scheds.len() as u64);
}

pub fn c13() {
    ctx::rule("event logs (reads of both decoders, progress calls, in real order) of successful comparisons checked on line against the protocol: calls 1,2,3,...,pairs,end marker last and once; reads in order, at most the limit, lockstep within one; frame counts 1..60, unequal lengths, limits up to usize::MAX, pools 1..9, paced decoders; distinct by event order");
    watchdog();
    let scheds: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    par_cases(1, ctx::n(5000, 80000), |r, i| {
        let m = VIDEO_METRICS[if r.chance(0.8) { i % 2 } else { i % 7 }];
        let depth = if r.chance(0.8) { 8 } else { 10 };
        let (w, h) = dims(r, Cs444, 4);
        let long = i % 500 == 7;
        let m = if long { VIDEO_METRICS[i / 500 % 2] } else { m };
        let n1 = if long { r.range(200, 1300) } else { r.range(1, if i % 9 == 0 { 60 } else { 12 }) };
        let n2 = if r.chance(0.5) || long { n1 + r.below(2) } else { r.range(1, 14) };
        let n = n1.min(n2);
        let lim = limit(r, n);
        let base = seq(r, w, h, depth, Cs444, 2);
        let mk = |n: usize| Arc::new((0..n).map(|j| base[j % 2].clone()).collect::<Vec<_>>());
        let log = Arc::new(Log::default());
        let mut d1 = Mock::new(mk(n1), 1, log.clone());
        let mut d2 = Mock::new(mk(n2), 2, log.clone());
        if !long {
            d1.pace = pace(r, n1);
            d2.pace = pace(r, n2);
        }
        let threads = r.range(1, 9);
        let slow_cb = r.chance(0.1);
        let l2 = log.clone();
        let o = pool(threads).install(|| {
            api::video(m, &mut d1, &mut d2, lim, move |v| {
                if slow_cb {
                    std::thread::sleep(std::time::Duration::from_micros(200));
                }
                l2.push(Ev::Cb(v))
            })
        });
        // calls arriving after the function returned would be missing here: give none a chance to hide
        let ev = log.all();
        let pairs = lim.map_or(n, |l| l.min(n));
        let desc = json!({"case": i, "metric": m.name(), "frames": [n1, n2], "limit": format!("{lim:?}"), "threads": threads});
        ctx::case(Some(ctx::fnv(&[schedule_hash(&ev), n1 as u64, n2 as u64, pairs as u64])));
        ctx::count("events_checked", ev.len() as u64);
        scheds.lock().unwrap().insert(schedule_hash(&ev));
        let mut bad: Option<String> = None;
        if !matches!(o, Out::Ok(_)) {
            bad = Some(format!("no score: {o:?}"));
        }
        let mut nextcb = 1;
        let mut ended = false;
        let mut reads = [0usize; 2];
        let mut asked = [0usize; 2];
        for (k, e) in ev.iter().enumerate() {
            if bad.is_some() {
                break;
            }
            match e {
                Ev::Cb(usize::MAX) => {
                    if ended {
                        bad = Some("second end marker".into());
                    } else if nextcb != pairs + 1 {
                        bad = Some(format!("end marker after {} progress calls for {pairs} pairs", nextcb - 1));
                    }
                    ended = true;
                }
                Ev::Cb(v) => {
                    if ended {
                        bad = Some(format!("progress call {v} after the end marker"));
                    } else if *v != nextcb {
                        bad = Some(format!("progress call {v} where {nextcb} was due (event {k})"));
                    } else if reads[0] < *v || reads[1] < *v {
                        bad = Some(format!("progress call {v} before the pair was read"));
                    }
                    nextcb += 1;
                }
                Ev::Read(who, pos, delivered) => {
                    let q = *who as usize - 1;
                    asked[q] += 1;
                    if *delivered {
                        if *pos != reads[q] {
                            bad = Some("frames delivered out of order".into());
                        }
                        reads[q] += 1;
                    }
                    if let Some(l) = lim {
                        if asked[q] > l {
                            bad = Some(format!("read number {} of input {who} exceeds the limit", asked[q]));
                        }
                    }
                    if reads[0].abs_diff(reads[1]) > 1 {
                        bad = Some(format!("inputs read out of step: {reads:?}"));
                    }
                }
            }
        }
        if bad.is_none() && !ended {
            bad = Some("no end marker".into());
        }
        if bad.is_none() && (reads[0] < pairs || reads[1] < pairs) {
            bad = Some(format!("only {reads:?} frames read for {pairs} pairs"));
        }
        // reads stop once one input has ended
        if bad.is_none() && log.reads_after_end.load(Ordering::SeqCst) > 4 {
            bad = Some("inputs are read on after their end".into());
        }
        if i % 211 == 0 {
            ctx::sample(json!({"run": desc, "events": ev.iter().take(12).map(|e| format!("{e:?}")).collect::<Vec<_>>()}));
        }
        if let Some(e) = bad {
            let tail: Vec<String> = ev.iter().take(80).map(|e| format!("{e:?}")).collect();
            ctx::violation("protocol of a video comparison", json!({"run": desc, "what": e, "events": tail}));
        }
    });
    ctx::count("distinct_event_orders", scheds.lock().unwrap().len() as u64);
}

pub fn c14() {
    ctx::rule("each video compared repeatedly: pools of 1..16 workers, default pool, slow/jittering/stalling decoders on either side, several comparisons at once in one pool and from many threads; every result against the first one; a list of comparisons made in fresh processes one by one and in shuffled orders; distinct by video, metric, pool and pacing; event orders counted");
    watchdog();
    let scheds: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let run = |m: M, a: &Arc<Vec<Pic>>, b: &Arc<Vec<Pic>>, p: (Pace, Pace), k: Option<usize>, r: &mut Rng| -> Out {
        let log = Arc::new(Log::default());
        let mut d1 = Mock::new(a.clone(), 1, log.clone());
        let mut d2 = Mock::new(b.clone(), 2, log.clone());
        d1.pace = p.0;
        d2.pace = p.1;
        d1.rng = r.fork();
        d2.rng = r.fork();
        let o = match k {
            Some(k) => pool(k).install(|| api::video(m, &mut d1, &mut d2, None, |_| {})),
            None => api::video(m, &mut d1, &mut d2, None, |_| {}),
        };
        scheds.lock().unwrap().insert(schedule_hash(&log.all()));
        o
    };
    let groups = ctx::n(120, 2400);
    for g in 0..groups {
        let mut r = ctx::rng(14_000 + g as u64);
        let m = VIDEO_METRICS[g % 7];
        let (depth, cs) = (*r.pick(&[8, 10]), *r.pick(&COLOR_CS));
        let (w, h) = dims(&mut r, cs, 20);
        let n = r.range(2, 24);
        let a = Arc::new(seq(&mut r, w, h, depth, cs, n));
        let b = Arc::new(paired(&mut r, &a));
        let first = run(m, &a, &b, (Pace::Fast, Pace::Fast), Some(1), &mut r);
        if first.ok().is_none() {
            ctx::violation("no score", json!({"metric": m.name(), "outcome": format!("{first:?}")}));
        }
        let check = |o: &Out, how: &str| {
            ctx::case(Some(ctx::fnv(&[a[0].hash(), m as u64, ctx::hash_str(how)])));
            if !agree_exactly(m, &first, o) {
                ctx::violation("result depends on scheduling", json!({"group": g, "metric": m.name(), "frames": n, "how": how, "first": format!("{first:?}"), "now": format!("{o:?}")}));
            }
        };
        for k in [1usize, 2, 3, 4, 5, 8, 16] {
            let p = (pace(&mut r, n), pace(&mut r, n));
            let o = run(m, &a, &b, p, Some(k), &mut r);
            check(&o, &format!("pool of {k}, {p:?}"));
            ctx::count(&format!("pool_{k}"), 1);
        }
        let o = run(m, &a, &b, (Pace::Jitter(200), Pace::Fast), None, &mut r);
        check(&o, "default pool");
        // several at once, each on its own data too
        let others: Vec<(M, Arc<Vec<Pic>>, Arc<Vec<Pic>>)> = (0..3)
            .map(|j| {
                let x = Arc::new(seq(&mut r, w, h, depth, cs, 5));
                let y = Arc::new(paired(&mut r, &x));
                (VIDEO_METRICS[(g + j + 1) % 7], x, y)
            })
            .collect();
        let alone: Vec<Out> = others.iter().map(|(m, x, y)| run(*m, x, y, (Pace::Fast, Pace::Fast), Some(2), &mut r)).collect();
        let mut seeds: Vec<Rng> = (0..8).map(|_| r.fork()).collect();
        let same_pool = if g % 2 == 0 { None } else { Some(r.range(1, 4)) };
        let outs: Vec<(usize, Out)> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter_mut()
                .enumerate()
                .map(|(j, rr)| {
                    let (a, b, others, run) = (&a, &b, &others, &run);
                    s.spawn(move || {
                        let p = (pace(rr, 5), pace(rr, 5));
                        if j < 4 {
                            (9, run(m, a, b, p, same_pool, rr))
                        } else {
                            let q = (j - 4) % 3;
                            (q, run(others[q].0, &others[q].1, &others[q].2, p, same_pool, rr))
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
        });
        for (q, o) in &outs {
            if *q == 9 {
                check(o, &format!("8 at once, pool {same_pool:?}"));
            } else {
                ctx::case(Some(ctx::fnv(&[others[*q].1[0].hash(), others[*q].0 as u64])));
                if !agree_exactly(others[*q].0, &alone[*q], o) {
                    ctx::violation("result depends on comparisons running at the same time", json!({"group": g, "metric": others[*q].0.name(), "alone": format!("{:?}", alone[*q]), "together": format!("{o:?}")}));
                }
            }
            ctx::count("concurrent_runs", 1);
        }
        // frame comparisons: from many threads and inside pools, bit for bit
        let base: Vec<Out> = crate::api::FRAME_METRICS.iter().map(|m| api::pics(*m, &a[0], &b[0])).collect();
        let again: Vec<Vec<Out>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|j| {
                    let (a, b) = (&a, &b);
                    s.spawn(move || {
                        let f = || crate::api::FRAME_METRICS.iter().map(|m| api::pics(*m, &a[0], &b[0])).collect::<Vec<_>>();
                        if j % 2 == 0 {
                            f()
                        } else {
                            pool(j).install(f)
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("HARNESS: thread")).collect()
        });
        for v in &again {
            for (k, o) in v.iter().enumerate() {
                ctx::case(None);
                ctx::count("concurrent_frame_runs", 1);
                if !agree_exactly(crate::api::FRAME_METRICS[k], &base[k], o) {
                    ctx::violation("frame score depends on scheduling", json!({"group": g, "metric": crate::api::FRAME_METRICS[k].name(), "first": format!("{:?}", base[k]), "now": format!("{o:?}")}));
                }
            }
        }
        if g % 17 == 0 {
            ctx::sample(json!({"metric": m.name(), "frames": n, "size": [w, h], "score": format!("{first:?}")}));
        }
        if ctx::enough() {
            break;
        }
    }
    ctx::count("distinct_event_orders", scheds.lock().unwrap().len() as u64);
    histories();
}

/// One comparison of the history workload: described by its seed alone.
fn hist_item(seed: u64) -> (String, Out) {
    // items of one block share a few sizes, depths and formats: two comparisons then often agree in
    // some of their parameters and differ in others
    let block = &mut Rng::new(seed >> 4);
    let r = &mut Rng::new(seed);
    let long = [16, 17, 24, 32, 40, 64, 100, 128, 257, 512, 700];
    let short = [1, 2, 3, 5, 9, 16, 40, 64];
    let tall = block.chance(0.7);
    let lists = if tall { (short.as_slice(), long.as_slice()) } else { (long.as_slice(), short.as_slice()) };
    let ws = [*block.pick(lists.0), *block.pick(lists.0), 64];
    let hs = [*block.pick(lists.1), *block.pick(lists.1)];
    let ms = [*block.pick(&VIDEO_METRICS), *block.pick(&[M::Ssim, M::Msssim, M::Hvs, M::Ciede])];
    let ds = [8, *block.pick(&[8, 10, 12])];
    let cs = [*block.pick(&ALL_CS), *block.pick(&[Cs420, Cs444])];
    let (m, depth, cs) = (*r.pick(&ms), *r.pick(&ds), *r.pick(&cs));
    let (mut w, mut h) = (*r.pick(&ws), *r.pick(&hs));
    if m == M::Hvs || m == M::Msssim {
        w = w.max(32);
        h = h.max(32);
    }
    let c = *r.pick(&[Content::Waves, Content::Noise, Content::Blocks]);
    let a = Pic::gen(r, w, h, depth, cs, c);
    let d = *r.pick(&[Distort::SmallNoise, Distort::BigNoise, Distort::Offset, Distort::Quantise]);
    let b = a.distorted(r, d);
    let how = format!("{} {w}x{h} {depth} {} seed {seed}", m.name(), cs_name(cs));
    let o = if r.chance(0.7) {
        api::pics(m, &a, &b)
    } else {
        crate::c_frame::video_of(m, vec![a.clone(), a], vec![b.clone(), b], None)
    };
    (how, o)
}
fn out_line(o: &Out) -> String {
    match o {
        Out::Ok(v) => v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(","),
        o => o.kind(),
    }
}
fn line_out(s: &str) -> Out {
    if s == "panic" {
        return Out::Panic(String::new());
    }
    let v: Option<Vec<f64>> = s.split(',').map(|x| if x.len() == 16 { u64::from_str_radix(x, 16).ok().map(f64::from_bits) } else { None }).collect();
    v.map_or_else(|| Out::Err(s.into(), String::new()), Out::Ok)
}
/// Child process: computes the listed comparisons in the order given and prints the results.
pub fn hist_child() -> ! {
    let list = std::env::var("AVH_LIST").unwrap_or_default();
    for s in list.split(',').filter_map(|s| s.parse::<u64>().ok()) {
        println!("H {s} {}", out_line(&hist_item(s).1));
    }
    std::process::exit(0)
}
/// The same comparisons in processes with different pasts: alone in a fresh process, and in shuffled
/// orders after many others. What was compared before must not matter.
fn histories() {
    let n = ctx::n(240, 1600);
    let mut r = ctx::rng(0x415);
    let seeds: Vec<u64> = (0..n / 8).flat_map(|_| {
        let b = r.u64() >> 16 << 4;
        (0..8).map(move |k| b + k)
    }).collect();
    let mut orders: Vec<Vec<u64>> = vec![];
    for _ in 0..ctx::n(8, 16) {
        let mut o = seeds.clone();
        for k in (1..o.len()).rev() {
            o.swap(k, r.below(k + 1));
        }
        orders.push(o);
    }
    orders.push(seeds.iter().rev().copied().collect());
    // alone: each comparison the first of its process
    for s in seeds.iter().step_by(3) {
        orders.push(vec![*s]);
    }
    let Ok(exe) = std::env::current_exe() else { panic!("HARNESS: own path") };
    let here: std::collections::HashMap<u64, (String, Out)> = seeds.iter().map(|s| (*s, hist_item(*s))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                let Some(o) = orders.get(k) else { break };
                let list: Vec<String> = o.iter().map(u64::to_string).collect();
                let out = std::process::Command::new(&exe)
                    .arg("C14-history")
                    .env("AVH_LIST", list.join(","))
                    .stderr(std::process::Stdio::null())
                    .output()
                    .expect("HARNESS: child process");
                let text = String::from_utf8_lossy(&out.stdout);
                let mut seen = 0;
                for l in text.lines().filter_map(|l| l.strip_prefix("H ")) {
                    let Some((s, v)) = l.split_once(' ') else { continue };
                    let Some((how, base)) = s.parse().ok().and_then(|s: u64| here.get(&s)) else { continue };
                    seen += 1;
                    let now = line_out(v);
                    ctx::case(Some(ctx::fnv(&[0x415, ctx::hash_str(how), k as u64])));
                    let m = VIDEO_METRICS.into_iter().find(|m| how.split(' ').next() == Some(m.name())).unwrap_or(M::Psnr);
                    if !agree_exactly(m, base, &now) {
                        ctx::violation("result depends on the comparisons made before", json!({"comparison": how, "here": format!("{base:?}"), "in another process": format!("{now:?}"), "position there": o.iter().position(|x| s == x.to_string())}));
                    }
                }
                if seen != o.len() {
                    ctx::violation("a process making comparisons ends early", json!({"comparisons": o.len(), "made": seen, "status": format!("{:?}", out.status)}));
                }
                ctx::count("process_histories", 1);
                ctx::count("comparisons_in_histories", seen as u64);
            });
        }
    });
}
fn agree_exactly(m: M, a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => same_aggregate(m, x, y),
        _ => agree(m, a, b),
    }
}

pub fn c23() {
    ctx::rule("read_specific_frame on decoders of 0..30 frames for every index in and around the range and huge ones, default method on scripted decoders and on the bundled decoders; the frame, the position afterwards and the reads after the end are checked; distinct by length and index");
    watchdog();
    let idx = |n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n + 4).collect();
        v.extend([n + 1000, 1 << 33, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
        v
    };
    let maxn = ctx::n(16, 40);
    for n in 0..=maxn {
        let mut r = ctx::rng(23_000 + n as u64);
        let deep = n % 3 == 2;
        let frames = Arc::new(seq(&mut r, 9 + n, 7, if deep { 10 } else { 8 }, Cs420, n));
        for k in idx(n) {
            let log = Arc::new(Log::default());
            let mut d = Mock::new(frames.clone(), 1, log.clone());
            let res = ctx::catch(|| {
                if deep {
                    let f = d.read_specific_frame::<u16>(k).map(|f| visible(&f.planes[0]));
                    (f, d.pos)
                } else {
                    let f = d.read_specific_frame::<u8>(k).map(|f| visible(&f.planes[0]));
                    (f, d.pos)
                }
            });
            let after = log.reads_after_end.load(Ordering::SeqCst);
            judge23("scripted", n, k, res.map(|(f, p)| (f, Some(p))), frames.get(k), after);
        }
    }
    // long videos, and indices where narrow counters wrap
    for (n, ks) in [(300usize, vec![254usize, 255, 256, 257, 299, 300, 512]), (70000, vec![32767, 32768, 65535, 65536, 65537, 69999, 70000, 131072])] {
        let base = seq(&mut ctx::rng(23_800), 4, 2, 8, Cs420, 64);
        let frames: Arc<Vec<Pic>> = Arc::new((0..n).map(|k| {
            let mut p = base[k % 64].clone();
            p.p[0].d[0] = (k & 255) as u16;
            p.p[0].d[1] = (k >> 8 & 255) as u16;
            p.p[0].d[2] = (k >> 16) as u16;
            p
        }).collect());
        for k in ks {
            let log = Arc::new(Log::default());
            let mut d = Mock::new(frames.clone(), 1, log.clone());
            let res = ctx::catch(|| {
                let f = d.read_specific_frame::<u8>(k).map(|f| visible(&f.planes[0]));
                (f, d.pos)
            });
            let after = log.reads_after_end.load(Ordering::SeqCst);
            judge23("scripted_long", n, k, res.map(|(f, p)| (f, Some(p))), frames.get(k), after);
        }
    }
    for i in 0..ctx::n(30, 400) {
        let mut r = ctx::rng(23_900 + i as u64);
        let tag = TAGS[i % TAGS.len()];
        let n = r.range(1, 8);
        let (w, h) = (r.range(1, 20), r.range(1, 20));
        let frames = seq(&mut r, w, h, tag.depth, tag.cs, n);
        let s = stream(tag.tag, &frames);
        for k in idx(n) {
            let f = MemFile::new(&s);
            let res = ctx::catch(|| {
                let Ok(mut d) = av_metrics_decoders::y4m::new_decoder_from_file(f.path()) else { return (None, None) };
                seek(&mut d, k, &frames)
            });
            judge23("y4m", n, k, res, frames.get(k), 0);
            #[cfg(feature = "ffmpeg")]
            if tag.cs != Cs400 {
                let res = ctx::catch(|| {
                    let Ok(mut d) = av_metrics_decoders::FfmpegDecoder::new(f.path()) else { return (None, None) };
                    seek(&mut d, k, &frames)
                });
                judge23("ffmpeg", n, k, res, frames.get(k), 0);
            }
        }
    }
}
/// Seeks and then reads on, to see where the decoder stands.
fn seek<D: Decoder>(d: &mut D, k: usize, frames: &[Pic]) -> (Option<Buf>, Option<usize>) {
    let deep = d.get_bit_depth() > 8;
    let f = if deep { d.read_specific_frame::<u16>(k).map(|f| visible(&f.planes[0])) } else { d.read_specific_frame::<u8>(k).map(|f| visible(&f.planes[0])) };
    let nx = if deep { d.read_video_frame::<u16>().map(|f| visible(&f.planes[0])) } else { d.read_video_frame::<u8>().map(|f| visible(&f.planes[0])) };
    let pos = match nx {
        None => frames.len(),
        Some(b) => frames.iter().enumerate().skip(k.min(frames.len())).find(|(_, p)| p.p[0] == b).map_or(usize::MAX, |p| p.0),
    };
    (f, Some(pos))
}
fn judge23(what: &str, n: usize, k: usize, res: Result<(Option<Buf>, Option<usize>), String>, want: Option<&Pic>, after: usize) {
    ctx::case(Some(ctx::fnv(&[ctx::hash_str(what), n as u64, k as u64, want.map_or(0, |p| p.hash())])));
    ctx::count(&format!("decoder_{what}"), 1);
    ctx::count(if want.is_some() { "present" } else { "absent" }, 1);
    let bad = match res {
        Err(p) => Some(format!("panic: {p}")),
        Ok((f, pos)) => match (f, want) {
            (Some(f), Some(p)) => {
                if f != p.p[0] {
                    Some("another frame was returned".to_string())
                } else if pos.is_some_and(|q| q != k + 1) {
                    Some(format!("decoder stands at {pos:?} afterwards"))
                } else {
                    None
                }
            }
            (None, None) => (after > 3).then(|| format!("{after} reads after the end")),
            (Some(_), None) => Some("a frame was returned although the video is shorter".into()),
            (None, Some(_)) => Some("nothing was returned although the frame exists".into()),
        },
    };
    if ctx::want_sample() && k % 5 == 3 {
        ctx::sample(json!({"decoder": what, "frames": n, "asked": k, "present": want.is_some()}));
    }
    if let Some(e) = bad {
        ctx::violation("reading a specific frame", json!({"decoder": what, "frames": n, "asked": k, "what": e}));
    }
}
