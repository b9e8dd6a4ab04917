//! Checks on single comparisons: value oracles and relational monitors.
use crate::api::{self, agree, near, near_err, Out, FRAME_METRICS, M, VIDEO_METRICS};
use crate::ctx::{self, Rng};
use crate::gen::*;
use crate::mock::{Log, Mock};
use crate::refm;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use v_frame::pixel::ChromaSampling;

/// Runs `n` independent cases on several threads; every case has its own random stream.
pub fn par_cases(stream: u64, n: usize, f: impl Fn(&mut Rng, usize) + Sync) {
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n || ctx::enough() {
                    break;
                }
                let mut r = ctx::rng(stream.wrapping_mul(1_000_003).wrapping_add(i as u64));
                f(&mut r, i);
            });
        }
    });
}

pub fn frame_l(m: M, a: &Pic, b: &Pic, la: &Layout, lb: &Layout, r: &mut Rng) -> Out {
    if a.depth > 8 {
        let (x, y) = (a.frame_in::<u16>(la, r), b.frame_in::<u16>(lb, r));
        api::frame(m, &x, &y, a.depth, a.cs)
    } else {
        let (x, y) = (a.frame_in::<u8>(la, r), b.frame_in::<u8>(lb, r));
        api::frame(m, &x, &y, a.depth, a.cs)
    }
}
pub fn video_of(m: M, a: Vec<Pic>, b: Vec<Pic>, limit: Option<usize>) -> Out {
    let log = Arc::new(Log::default());
    let mut d1 = Mock::new(Arc::new(a), 1, log.clone());
    let mut d2 = Mock::new(Arc::new(b), 2, log);
    api::video(m, &mut d1, &mut d2, limit, |_| {})
}
fn planes_desc(a: &Pic, b: &Pic) -> Value {
    let tot: usize = a.p.iter().map(|p| p.d.len()).sum();
    if tot <= 600 {
        json!({"a": [a.p[0].d, a.p[1].d, a.p[2].d], "b": [b.p[0].d, b.p[1].d, b.p[2].d]})
    } else {
        json!("omitted (large); regenerate with the seed and case number")
    }
}
fn report(what: &str, case: usize, p: &Pair, extra: Value) {
    ctx::violation(
        what,
        json!({"case": case, "pair": p.desc(), "got_expected": extra, "samples": planes_desc(&p.a, &p.b)}),
    );
}
fn judged(p: &Pair, case: usize, m: M, v: &[f64]) {
    let h = ctx::fnv(&[p.hash(), m as u64]);
    ctx::case(if p.trivial() { None } else { Some(h) });
    ctx::count(&format!("cs_{}", cs_name(p.a.cs)), 1);
    ctx::count(&format!("depth_{}", p.a.depth), 1);
    if !p.trivial() && case % 37 == 0 && ctx::want_sample() {
        ctx::sample(json!({"case": case, "metric": m.name(), "pair": p.desc(), "score": v.iter().map(|x| format!("{x:.6}")).collect::<Vec<_>>()}));
    }
}

const DEPTHS: [usize; 9] = [8, 8, 8, 10, 10, 12, 9, 14, 16];

struct ValueSpec {
    m: M,
    /// expected plane values in the metric's own domain, compared by `cmp`
    cmp: fn(&Pic, &Pic, &[f64]) -> Result<(), Value>,
    min: usize,
    max: usize,
    depths: &'static [usize],
    cs: &'static [ChromaSampling],
}

fn value_case(spec: &ValueSpec, p: &Pair, l: &Layout, r: &mut Rng, case: usize) {
    let o = frame_l(spec.m, &p.a, &p.b, l, l, r);
    match &o {
        Out::Ok(v) => {
            judged(p, case, spec.m, v);
            if let Err(e) = (spec.cmp)(&p.a, &p.b, v) {
                report(&format!("{} differs from its definition", spec.m.name()), case, p, json!({"layout": format!("{l:?}"), "diff": e}));
            }
        }
        o => {
            ctx::case(None);
            report(&format!("{} gives no score for supported input", spec.m.name()), case, p, json!({"layout": format!("{l:?}"), "outcome": format!("{o:?}")}));
        }
    }
}
fn run_values(stream: u64, spec: &ValueSpec, n: usize) {
    par_cases(stream, n, |r, i| {
        let depth = *r.pick(spec.depths);
        let cs = *r.pick(spec.cs);
        // chroma planes must reach the minimum as well
        let (xd, yd) = dec(cs);
        let lo_w = if spec.min > 1 { spec.min << xd } else { 1 };
        let lo_h = if spec.min > 1 { spec.min << yd } else { 1 };
        let (w, h) = (size(r, lo_w, spec.max.max(lo_w + 8)), size(r, lo_h, spec.max.max(lo_h + 8)));
        let p = Pair::gen(r, w, h, depth, cs);
        let l = if r.chance(0.25) { Layout::random(r) } else { Layout::plain() };
        value_case(spec, &p, &l, r, i);
    });
}

/// Picture sizes of real video: totals, accumulators and windows that small pictures never stress.
fn run_large(stream: u64, spec: &ValueSpec, n: usize) {
    par_cases(stream, n, |r, i| {
        let (depth, cs) = (*r.pick(spec.depths), *r.pick(spec.cs));
        let (w, h) = match i % 4 {
            0 => (r.range(900, 2100), r.range(32, 90)),
            1 => (r.range(32, 90), r.range(900, 2100)),
            2 => (r.range(500, 800), r.range(300, 500)),
            _ => (r.range(250, 400), r.range(180, 300)),
        };
        let c = *r.pick(&[Content::Extremes, Content::Saturated, Content::Noise, Content::Waves, Content::Gradient, Content::Checker]);
        let d = *r.pick(&[Distort::Invert, Distort::Other, Distort::BigNoise, Distort::Blur, Distort::SmallNoise, Distort::LastSamples]);
        let p = Pair::of(r, w, h, depth, cs, c, d);
        let l = if r.chance(0.25) { Layout::random(r) } else { Layout::plain() };
        value_case(spec, &p, &l, r, i);
        ctx::count("large_pictures", 1);
    });
}

/// Full pictures, and sides beyond 16 bits.
fn run_huge(stream: u64, spec: &ValueSpec, n: usize, tall: usize) {
    par_cases(stream, n, |r, i| {
        let (depth, cs) = (if i % 3 == 0 { *spec.depths.last().unwrap() } else { *r.pick(spec.depths) }, *r.pick(spec.cs));
        let m = spec.min.max(8);
        let (w, h) = match i % 6 {
            0 => (1920, 1080),
            1 => (65536 + r.range(1, 300), r.range(2 * m, 2 * m + 6)),
            2 => (r.range(2 * m, 2 * m + 6), tall + r.range(1, 300)),
            3 => (4096 + r.range(1, 40), r.range(40, 120)),
            4 => (r.range(40, 120), 4096 + r.range(1, 40)),
            _ => (r.range(1200, 1500), r.range(700, 900)),
        };
        let c = *r.pick(&[Content::Extremes, Content::Noise, Content::Waves, Content::Saturated]);
        let d = *r.pick(&[Distort::Invert, Distort::Other, Distort::BigNoise, Distort::SmallNoise, Distort::LastSamples]);
        let p = Pair::of(r, w, h, depth, cs, c, d);
        value_case(spec, &p, &Layout::plain(), r, i);
        ctx::count("huge_pictures", 1);
    });
}

// ---------------------------------------------------------------- C01
fn cmp_psnr(a: &Pic, b: &Pic, v: &[f64]) -> Result<(), Value> {
    let e = refm::psnr(a, b);
    for i in 0..4 {
        if !near(v[i], e[i], 1e-8) {
            return Err(json!({"plane": (["y","u","v","avg"][i]), "got": v[i], "expected": e[i]}));
        }
    }
    Ok(())
}
pub fn c01() {
    ctx::rule("random picture pairs (10 contents x 14 distortions x sizes 1..130 x 4 chroma formats x 8-16 bit x storage layouts) and frame sequences, PSNR/APSNR compared with an exact-integer reference within 1e-8 dB; non-trivial = planes differ; distinct by content hash");
    let spec = ValueSpec { m: M::Psnr, cmp: cmp_psnr, min: 1, max: 130, depths: &DEPTHS, cs: &ALL_CS };
    run_values(1, &spec, ctx::n(3000, 60000));
    run_large(9, &spec, ctx::n(12, 200));
    run_huge(10, &spec, ctx::few(12, 60), 65536);
    // near-identical large pictures: the cap
    par_cases(2, ctx::n(24, 200), |r, i| {
        let depth = *r.pick(&[8, 8, 10, 12, 16]);
        let (w, h) = (r.range(400, 700), r.range(300, 420));
        let cs = *r.pick(&ALL_CS);
        let c = *r.pick(&CONTENTS);
        let d = *r.pick(&[Distort::OneSample, Distort::OneSample, Distort::SmallNoise]);
        let p = Pair::of(r, w, h, depth, cs, c, d);
        value_case(&spec, &p, &Layout::plain(), r, i);
        ctx::count("near_identical_large", 1);
    });
    // sequences
    par_cases(3, ctx::n(250, 4000), |r, i| {
        let (depth, cs) = (*r.pick(&[8, 8, 10, 12, 16]), *r.pick(&ALL_CS));
        let (w, h) = (size(r, 1, 48), size(r, 1, 48));
        let n = r.range(1, 9);
        let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(r, w, h, depth, cs)).collect();
        let fr = |f: fn(&Pair) -> &Pic| ps.iter().map(|p| f(p).clone()).collect::<Vec<_>>();
        let (a, b) = (fr(|p| &p.a), fr(|p| &p.b));
        let max = a[0].max();
        let mut tot = [(0u128, 0u128); 4];
        let mut mean = [0.0; 4];
        for (x, y) in a.iter().zip(&b) {
            let v = refm::psnr(x, y);
            for k in 0..4 {
                mean[k] += v[k] / n as f64;
            }
            for k in 0..3 {
                let (e, c) = refm::sqerr(&x.p[k], &y.p[k]);
                tot[k] = (tot[k].0 + e, tot[k].1 + c);
                tot[3] = (tot[3].0 + e, tot[3].1 + c);
            }
        }
        let pooled: Vec<f64> = tot.iter().map(|(e, n)| refm::psnr_db(*e, *n, max)).collect();
        for (m, want) in [(M::Psnr, pooled), (M::Apsnr, mean.to_vec())] {
            let o = video_of(m, a.clone(), b.clone(), None);
            ctx::case(Some(ctx::fnv(&[ps[0].hash(), n as u64, m as u64])));
            ctx::count("sequences", 1);
            let ok = o.ok().map(|v| (0..4).all(|k| near(v[k], want[k], 1e-8))).unwrap_or(false);
            if !ok {
                ctx::violation(&format!("{} of a frame sequence differs from its definition", m.name()),
                    json!({"case": i, "frames": n, "format": a[0].desc(), "got": format!("{o:?}"), "expected": want}));
            }
        }
    });
}

// ---------------------------------------------------------------- C02-C04
fn cmp_lin(v: &[f64], want: [f64; 3], abs: f64, rel: f64) -> Result<(), Value> {
    for i in 0..3 {
        let got = api::lin(v[i]);
        if v[i].is_nan() || (got - want[i]).abs() > abs + rel * want[i].abs() {
            return Err(json!({"plane": (["y","u","v"][i]), "got_dB": v[i], "got_error": got, "expected_error": want[i]}));
        }
    }
    Ok(())
}
fn cmp_ssim(a: &Pic, b: &Pic, v: &[f64]) -> Result<(), Value> {
    let w = [0, 1, 2].map(|i| 1.0 - refm::ssim_plane(&a.p[i], &b.p[i], a.depth));
    cmp_lin(v, w, 1e-9, 1e-8)
}
fn cmp_msssim(a: &Pic, b: &Pic, v: &[f64]) -> Result<(), Value> {
    // fractional powers of means near zero amplify rounding: slightly wider
    let w = [0, 1, 2].map(|i| 1.0 - refm::msssim_plane(&a.p[i], &b.p[i], a.depth));
    cmp_lin(v, w, 2e-8, 1e-8)
}
fn cmp_hvs(a: &Pic, b: &Pic, v: &[f64]) -> Result<(), Value> {
    let w = [0, 1, 2].map(|i| refm::hvs_plane(&a.p[i], &b.p[i], i, a.depth));
    cmp_lin(v, w, 1e-13, 1e-7)
}
fn seq_mean(stream: u64, spec: &ValueSpec, lo: usize, plane: fn(&Pic, &Pic, usize) -> f64, n: usize) {
    par_cases(stream, n, |r, i| {
        let (depth, cs) = (*r.pick(spec.depths), *r.pick(spec.cs));
        let (xd, yd) = dec(cs);
        let (lw, lh) = if lo > 1 { (lo << xd, lo << yd) } else { (1, 1) };
        let (w, h) = (r.range(lw, lw + 30), r.range(lh, lh + 30));
        let n = r.range(2, 6);
        let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(r, w, h, depth, cs)).collect();
        let o = video_of(spec.m, ps.iter().map(|p| p.a.clone()).collect(), ps.iter().map(|p| p.b.clone()).collect(), None);
        let mut want = [0.0; 3];
        for p in &ps {
            for k in 0..3 {
                want[k] += plane(&p.a, &p.b, k) / n as f64;
            }
        }
        ctx::case(Some(ctx::fnv(&[ps[0].hash(), ps[1].hash(), spec.m as u64])));
        ctx::count("sequences", 1);
        let bad = match o.ok() {
            Some(v) => cmp_lin(v, want, if spec.m == M::Hvs { 1e-13 } else { 2e-8 }, 1e-7).err(),
            None => Some(json!(format!("{o:?}"))),
        };
        if let Some(e) = bad {
            ctx::violation(&format!("{} of a frame sequence is not the mean of the frame values", spec.m.name()),
                json!({"case": i, "frames": n, "format": ps[0].a.desc(), "diff": e}));
        }
    });
}
pub fn c02() {
    ctx::rule("random picture pairs (contents x distortions x sizes 1..200 x chroma formats x 8-16 bit x layouts) and sequences; plane SSIM compared in the linear domain (abs 1e-9) with an exact-integer windowed reference; non-trivial = planes differ");
    let spec = ValueSpec { m: M::Ssim, cmp: cmp_ssim, min: 1, max: 96, depths: &DEPTHS, cs: &ALL_CS };
    run_values(1, &spec, ctx::n(1200, 20000));
    run_large(9, &spec, ctx::n(3, 40));
    run_huge(10, &spec, ctx::few(12, 24), 4500);
    // tall pictures: larger windows (the window grows with the plane height)
    par_cases(2, ctx::n(60, 600), |r, i| {
        let (w, h) = (r.range(20, 90), r.range(250, 520));
        let (depth, cs) = (*r.pick(&DEPTHS), *r.pick(&ALL_CS));
        let p = Pair::gen(r, w, h, depth, cs);
        value_case(&spec, &p, &Layout::plain(), r, i);
        ctx::count("tall_pictures", 1);
    });
    seq_mean(3, &spec, 1, |a, b, k| 1.0 - refm::ssim_plane(&a.p[k], &b.p[k], a.depth), ctx::n(120, 1500));
}
pub fn c03() {
    ctx::rule("random picture pairs (contents x distortions incl. inverted/anticorrelated x sizes from 16x16 per plane, odd at every scale x chroma formats x 8-16 bit x layouts) and sequences; plane MS-SSIM compared in the linear domain (abs 2e-8) with an exact-integer reference; non-trivial = planes differ");
    let spec = ValueSpec { m: M::Msssim, cmp: cmp_msssim, min: 16, max: 110, depths: &DEPTHS, cs: &ALL_CS };
    run_values(1, &spec, ctx::n(700, 12000));
    run_large(9, &spec, ctx::n(4, 60));
    run_huge(10, &spec, ctx::few(12, 36), 65536);
    seq_mean(3, &spec, 16, |a, b, k| 1.0 - refm::msssim_plane(&a.p[k], &b.p[k], a.depth), ctx::n(80, 1000));
}
pub fn c04() {
    ctx::rule("random picture pairs (contents x distortions x sizes from 8x8 per plane x chroma formats x 8-16 bit x layouts) and sequences; plane PSNR-HVS compared in the linear domain (rel 1e-7) with a reference using exact integer DCT; non-trivial = planes differ");
    let spec = ValueSpec { m: M::Hvs, cmp: cmp_hvs, min: 8, max: 90, depths: &DEPTHS, cs: &ALL_CS };
    run_values(1, &spec, ctx::n(1500, 30000));
    run_large(9, &spec, ctx::n(6, 100));
    run_huge(10, &spec, ctx::few(12, 36), 65536);
    seq_mean(3, &spec, 8, |a, b, k| refm::hvs_plane(&a.p[k], &b.p[k], k, a.depth), ctx::n(120, 1500));
}

// ---------------------------------------------------------------- C05
static WORST_CIEDE: AtomicUsize = AtomicUsize::new(0);
fn ciede_tol(mean: f64) -> f64 {
    5e-4 + 5e-4 * mean
}
fn cmp_ciede(a: &Pic, b: &Pic, v: &[f64]) -> Result<(), Value> {
    let (lo, hi) = refm::ciede_mean(a, b);
    if v[0] == 100.0 && lo < 2.4e-3 {
        return Ok(());
    }
    let got = 10f64.powf((45.0 - v[0]) / 20.0);
    let d = (lo - got).max(got - hi).max(0.0);
    WORST_CIEDE.fetch_max((d / ciede_tol(hi) * 1e6) as usize, Ordering::Relaxed);
    if hi > lo {
        ctx::count("pairs_with_opposite_hues", 1);
    }
    if v[0].is_nan() || v[0] > 100.0 || d > ciede_tol(hi) {
        return Err(json!({"got_score": v[0], "expected_score": refm::ciede_score(hi), "got_mean_delta": got, "expected_mean_delta": [lo, hi]}));
    }
    Ok(())
}
const D3: [usize; 3] = [8, 10, 12];
pub fn c05() {
    ctx::rule("random picture pairs (contents x distortions x sizes 1..90 x chroma formats x 8/10/12 bit x layouts), uniform colour pairs covering hue wrap-around, dark and saturated colours, and sequences, on the vector and the portable path; mean colour difference compared with a double-precision reference (abs 5e-4 + 0.05%); non-trivial = planes differ");
    for m in [M::Ciede, M::CiedeScalar] {
        let spec = ValueSpec { m, cmp: cmp_ciede, min: 1, max: 90, depths: &D3, cs: &ALL_CS };
        run_values(1 + m as u64, &spec, ctx::n(900, 15000));
        run_large(70 + m as u64, &spec, ctx::n(4, 60));
        run_huge(90 + m as u64, &spec, ctx::few(12, 24), 65536);
        // single-colour pictures: nothing averages out
        par_cases(20 + m as u64, ctx::n(6000, 200000), |r, i| {
            let depth = *r.pick(&D3);
            let cs = *r.pick(&[Cs420, Cs422, Cs444, Cs444]);
            let (w, h) = (8, 2);
            let sh = depth - 8;
            let max = (1u32 << depth) - 1;
            let col = |r: &mut Rng| -> [u16; 3] {
                let wide = r.chance(0.4);
                let y = if wide { r.below(max as usize + 1) } else { r.range(16 << sh, 235 << sh) };
                let c = |r: &mut Rng| if wide { r.below(max as usize + 1) } else { (128 << sh) + r.below(80 << sh) - (40 << sh) };
                [y as u16, c(r) as u16, c(r) as u16]
            };
            let ca = col(r);
            let cb = if r.chance(0.5) {
                // a near colour, the range real video differences live in
                let k = 1 + r.below(20 << sh) as i64;
                ca.map(|v| (v as i64 + r.irange(-k, k)).clamp(0, max as i64) as u16)
            } else {
                col(r)
            };
            let mk = |c: [u16; 3]| {
                let mut p = Pic::blank(w, h, depth, cs);
                for k in 0..3 {
                    p.p[k].d.fill(c[k]);
                }
                p
            };
            let p = Pair { a: mk(ca), b: mk(cb), content: Content::Flat, distort: Distort::Other };
            value_case(&spec, &p, &Layout::plain(), r, i);
            ctx::count("uniform_colour_pairs", 1);
        });
        par_cases(40 + m as u64, ctx::n(60, 800), |r, i| {
            let (depth, cs) = (*r.pick(&D3), *r.pick(&ALL_CS));
            let (w, h, n) = (r.range(1, 30), r.range(1, 20), r.range(2, 7));
            let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(r, w, h, depth, cs)).collect();
            let want = ps.iter().map(|p| api::pics(m, &p.a, &p.b).ok().map(|v| v[0]).unwrap_or(f64::NAN)).sum::<f64>() / n as f64;
            let o = video_of(m, ps.iter().map(|p| p.a.clone()).collect(), ps.iter().map(|p| p.b.clone()).collect(), None);
            ctx::case(Some(ctx::fnv(&[ps[0].hash(), ps[1].hash(), m as u64])));
            ctx::count("sequences", 1);
            if !o.ok().map(|v| near(v[0], want, 1e-6)).unwrap_or(false) {
                ctx::violation("CIEDE2000 of a sequence is not the mean of the frame scores", json!({"case": i, "got": format!("{o:?}"), "expected": want}));
            }
        });
    }
    ctx::count("worst_fraction_of_tolerance_ppm", WORST_CIEDE.load(Ordering::Relaxed) as u64);
}

// ---------------------------------------------------------------- C06
pub fn c06() {
    ctx::rule("random picture pairs in 4:2:0/4:2:2 (vector path active) and 4:4:4/mono, all widths modulo 8, small heights so single-sample errors stay visible; mean difference from both paths must agree within 1e-5 + 0.02%; non-trivial = planes differ");
    let avx2 = is_x86_feature_detected!("avx2");
    ctx::count("avx2_available", avx2 as u64);
    if !avx2 {
        ctx::assume("no AVX2 on this machine: both calls used the portable path");
    }
    let worst = AtomicUsize::new(0);
    par_cases(1, ctx::n(12000, 200000), |r, i| {
        let depth = *r.pick(&D3);
        let cs = *r.pick(&[Cs420, Cs422, Cs420, Cs422, Cs444, Cs400]);
        let (w, h) = if r.chance(0.9) { (r.range(1, 72), r.range(1, 4)) } else { (size(r, 1, 200), r.range(1, 30)) };
        let p = Pair::gen(r, w, h, depth, cs);
        let l = if r.chance(0.25) { Layout::random(r) } else { Layout::plain() };
        let a = frame_l(M::Ciede, &p.a, &p.b, &l, &l, r);
        let b = frame_l(M::CiedeScalar, &p.a, &p.b, &l, &l, r);
        ctx::count(&format!("width_mod8_{}", w % 8), 1);
        match (&a, &b) {
            (Out::Ok(x), Out::Ok(y)) => {
                judged(&p, i, M::Ciede, x);
                let t = |s: f64| 10f64.powf((45.0 - s) / 20.0);
                let (mx, my) = (t(x[0]), t(y[0]));
                let tol = 1e-5 + 2e-4 * mx.max(my);
                worst.fetch_max(((mx - my).abs() / tol * 1e6) as usize, Ordering::Relaxed);
                if x[0].is_nan() || y[0].is_nan() || ((mx - my).abs() > tol && !(x[0] == 100.0 && y[0] > 99.0)) {
                    report("vector and portable CIEDE2000 disagree", i, &p, json!({"simd": x[0], "scalar": y[0], "layout": format!("{l:?}")}));
                }
            }
            _ => {
                ctx::case(None);
                report("a CIEDE2000 path gives no score", i, &p, json!({"simd": format!("{a:?}"), "scalar": format!("{b:?}")}));
            }
        }
    });
    par_cases(3, ctx::few(12, 60), |r, i| {
        let (depth, cs) = (*r.pick(&D3), *r.pick(&[Cs420, Cs422]));
        let (w, h) = match i % 3 {
            0 => (65536 + r.range(1, 300), r.range(1, 4)),
            1 => (r.range(1, 20), 65536 + r.range(1, 300)),
            _ => (r.range(1500, 4200), r.range(20, 60)),
        };
        let p = Pair::gen(r, w, h, depth, cs);
        let l = Layout::plain();
        let a = frame_l(M::Ciede, &p.a, &p.b, &l, &l, r);
        let b = frame_l(M::CiedeScalar, &p.a, &p.b, &l, &l, r);
        ctx::case(Some(p.hash()));
        ctx::count("huge_pictures", 1);
        if !agree(M::Ciede, &a, &b) {
            report("vector and portable CIEDE2000 disagree", i, &p, json!({"simd": format!("{a:?}"), "scalar": format!("{b:?}")}));
        }
    });
    ctx::count("worst_fraction_of_tolerance_ppm", worst.load(Ordering::Relaxed) as u64);
    // the same agreement through the video entry points
    par_cases(2, ctx::n(40, 400), |r, i| {
        let (depth, cs) = (*r.pick(&D3), *r.pick(&[Cs420, Cs422]));
        let (w, h, n) = (r.range(8, 60), r.range(1, 20), r.range(1, 5));
        let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(r, w, h, depth, cs)).collect();
        let v = |m| video_of(m, ps.iter().map(|p| p.a.clone()).collect(), ps.iter().map(|p| p.b.clone()).collect(), None);
        let (a, b) = (v(M::Ciede), v(M::CiedeScalar));
        ctx::case(Some(ctx::fnv(&[ps[0].hash(), n as u64])));
        if !agree(M::Ciede, &a, &b) {
            ctx::violation("vector and portable CIEDE2000 disagree on a video", json!({"case": i, "simd": format!("{a:?}"), "scalar": format!("{b:?}")}));
        }
    });
}

/// A picture size for which every metric in `FRAME_METRICS` is defined, or small ones now and then.
fn any_size(r: &mut Rng, cs: ChromaSampling, max: usize) -> (usize, usize) {
    let (xd, yd) = dec(cs);
    if r.chance(0.2) {
        (size(r, 1, 40), size(r, 1, 40))
    } else {
        (size(r, 16 << xd, max), size(r, 16 << yd, max))
    }
}

// ---------------------------------------------------------------- C07
pub fn c07() {
    ctx::rule("every metric on a picture pair stored in the plain layout and in random layouts (padding, origin, stride, tight allocation; garbage, extreme or default bytes outside the visible area): scores must agree; non-trivial = layout differs from plain and planes differ");
    par_cases(1, ctx::n(900, 15000), |r, i| {
        let depth = *r.pick(&[8, 8, 8, 10, 12, 10, 16, 9]);
        let cs = *r.pick(&ALL_CS);
        let (w, h) = any_size(r, cs, 70);
        let p = Pair::gen(r, w, h, depth, cs);
        for m in FRAME_METRICS {
            if !m.defined_for(&p.a) {
                continue;
            }
            let base = api::pics(m, &p.a, &p.b);
            for k in 0..2 {
                let l = Layout::random(r);
                let o = frame_l(m, &p.a, &p.b, &l, &l, r);
                judged(&p, i * 7 + k, m, o.ok().unwrap_or(&[]));
                ctx::count(&format!("layout_{:?}", l.kind), 1);
                if base.ok().is_none() || !agree(m, &base, &o) {
                    report(&format!("{} depends on storage layout", m.name()), i, &p,
                        json!({"layout": format!("{l:?}"), "plain": format!("{base:?}"), "relaid": format!("{o:?}")}));
                }
            }
            if r.chance(0.2) {
                // differently stored inputs: an error is fine, another score is not
                let (l1, l2) = (Layout::random(r), Layout::random(r));
                let o = frame_l(m, &p.a, &p.b, &l1, &l2, r);
                ctx::count("mixed_layouts", 1);
                let ok = match &o {
                    Out::Ok(_) => agree(m, &base, &o),
                    Out::Err(..) => true,
                    Out::Panic(_) => false,
                };
                ctx::case(None);
                if !ok {
                    report(&format!("{} of differently stored pictures", m.name()), i, &p,
                        json!({"layouts": format!("{l1:?} / {l2:?}"), "plain": format!("{base:?}"), "mixed": format!("{o:?}")}));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C08
fn top_ok(m: M, v: &[f64]) -> bool {
    v.iter().all(|x| match m {
        M::Psnr | M::Apsnr | M::Ciede | M::CiedeScalar => *x == 100.0,
        M::Hvs => *x == f64::INFINITY,
        // accumulated rounding allowed
        _ => *x >= 110.0,
    })
}
pub fn c08() {
    ctx::rule("identical pictures and videos on every metric (top score required) and random/hostile pairs (no NaN, caps respected); non-trivial = every distinct content of a defined size; identical pairs count because the expected score is exact");
    par_cases(1, ctx::n(1500, 25000), |r, i| {
        let depth = *r.pick(&[8, 8, 10, 12, 9, 16, 14]);
        let cs = *r.pick(&ALL_CS);
        let (w, h) = any_size(r, cs, 80);
        let c = *r.pick(&CONTENTS);
        let a = Pic::gen(r, w, h, depth, cs, c);
        let d = *r.pick(&DISTORTS);
        let p = Pair::of(r, w, h, depth, cs, c, d);
        for m in FRAME_METRICS {
            if m.defined_for(&a) {
                let o = api::pics(m, &a, &a);
                ctx::case(Some(ctx::fnv(&[a.hash(), m as u64])));
                ctx::count("identical_frames", 1);
                if !o.ok().map(|v| top_ok(m, v)).unwrap_or(false) {
                    ctx::violation("identical pictures do not get the top score", json!({"case": i, "metric": m.name(), "picture": a.desc(), "content": format!("{c:?}"), "outcome": format!("{o:?}"), "samples": planes_desc(&a, &a)}));
                }
            }
            let o = api::pics(m, &p.a, &p.b);
            ctx::count("no_nan_pairs", 1);
            ctx::case(None);
            if let Out::Ok(v) = &o {
                let cap = matches!(m, M::Psnr | M::Ciede | M::CiedeScalar);
                if v.iter().any(|x| x.is_nan() || (cap && *x > 100.0)) {
                    report("NaN or above-top score", i, &p, json!({"metric": m.name(), "scores": format!("{v:?}")}));
                }
            }
        }
    });
    // large near-identical pictures and rounding in long accumulations
    par_cases(2, ctx::n(40, 400), |r, i| {
        let (w, h) = (r.range(300, 660), r.range(200, 400));
        let (depth, cs, c) = (*r.pick(&D3), *r.pick(&ALL_CS), *r.pick(&CONTENTS));
        let p = Pair::of(r, w, h, depth, cs, c, if i % 2 == 0 { Distort::OneSample } else { Distort::Same });
        for m in [M::Psnr, M::Ciede, M::Ssim, M::Msssim, M::Hvs] {
            let o = api::pics(m, &p.a, &p.b);
            ctx::case(Some(ctx::fnv(&[p.hash(), m as u64])));
            ctx::count("large_frames", 1);
            let ok = match &o {
                Out::Ok(v) => {
                    let cap = matches!(m, M::Psnr | M::Ciede);
                    v.iter().all(|x| !x.is_nan() && !(cap && *x > 100.0)) && (!p.trivial() || top_ok(m, v))
                }
                _ => false,
            };
            if !ok {
                report("large near-identical pictures: wrong top score, NaN or above top", i, &p, json!({"metric": m.name(), "outcome": format!("{o:?}")}));
            }
        }
    });
    // videos
    par_cases(3, ctx::n(150, 2500), |r, i| {
        let (depth, cs) = (*r.pick(&[8, 10, 12]), *r.pick(&ALL_CS));
        let (xd, yd) = dec(cs);
        let (w, h) = (r.range(16 << xd, 60), r.range(16 << yd, 60));
        let n = r.range(1, 12);
        let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(r, w, h, depth, cs)).collect();
        let a: Vec<Pic> = ps.iter().map(|p| p.a.clone()).collect();
        let b: Vec<Pic> = ps.iter().map(|p| p.b.clone()).collect();
        for m in VIDEO_METRICS {
            let o = video_of(m, a.clone(), a.clone(), None);
            ctx::case(Some(ctx::fnv(&[a[0].hash(), n as u64, m as u64])));
            ctx::count("identical_videos", 1);
            if !o.ok().map(|v| top_ok(m, v)).unwrap_or(false) {
                ctx::violation("identical videos do not get the top score", json!({"case": i, "metric": m.name(), "video": a[0].desc(), "frames": n, "outcome": format!("{o:?}")}));
            }
            let o = video_of(m, a.clone(), b.clone(), None);
            ctx::case(None);
            let cap = matches!(m, M::Psnr | M::Apsnr | M::Ciede | M::CiedeScalar);
            let bad = match &o {
                Out::Ok(v) => v.iter().any(|x| x.is_nan() || (cap && *x > 100.0)),
                _ => true,
            };
            if bad {
                ctx::violation("NaN, above-top or no score for a video", json!({"case": i, "metric": m.name(), "outcome": format!("{o:?}"), "pairs": ps.iter().map(|p| p.desc()).collect::<Vec<_>>()}));
            }
        }
    });
}

// ---------------------------------------------------------------- C09
pub fn c09() {
    ctx::rule("score(a,b) versus score(b,a) for every metric on random pairs and sequences; non-trivial = planes differ");
    par_cases(1, ctx::n(1200, 20000), |r, i| {
        let depth = *r.pick(&[8, 8, 10, 12, 9, 16]);
        let cs = *r.pick(&ALL_CS);
        let (w, h) = any_size(r, cs, 64);
        let p = Pair::gen(r, w, h, depth, cs);
        for m in FRAME_METRICS {
            if !m.defined_for(&p.a) {
                continue;
            }
            let (x, y) = (api::pics(m, &p.a, &p.b), api::pics(m, &p.b, &p.a));
            judged(&p, i, m, x.ok().unwrap_or(&[]));
            if x.ok().is_none() || !agree(m, &x, &y) {
                report(&format!("{} is not symmetric", m.name()), i, &p, json!({"ab": format!("{x:?}"), "ba": format!("{y:?}")}));
            }
        }
    });
    par_cases(2, ctx::n(80, 1200), |r, i| {
        let (depth, cs) = (*r.pick(&D3), *r.pick(&ALL_CS));
        let (xd, yd) = dec(cs);
        let (w, h, n) = (r.range(16 << xd, 50), r.range(16 << yd, 50), r.range(1, 6));
        let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(r, w, h, depth, cs)).collect();
        let a: Vec<Pic> = ps.iter().map(|p| p.a.clone()).collect();
        let mut b: Vec<Pic> = ps.iter().map(|p| p.b.clone()).collect();
        if r.chance(0.3) {
            b.push(b[0].clone()); // one input longer than the other
        }
        for m in VIDEO_METRICS {
            let (x, y) = (video_of(m, a.clone(), b.clone(), None), video_of(m, b.clone(), a.clone(), None));
            ctx::case(Some(ctx::fnv(&[ps[0].hash(), n as u64, m as u64])));
            ctx::count("videos", 1);
            if x.ok().is_none() || !agree(m, &x, &y) {
                ctx::violation("video score is not symmetric", json!({"case": i, "metric": m.name(), "ab": format!("{x:?}"), "ba": format!("{y:?}")}));
            }
        }
    });
}

// ---------------------------------------------------------------- C10
fn must_reject(what: &str, m: M, o: &Out, detail: Value) {
    ctx::case(Some(ctx::fnv(&[ctx::hash_str(what), m as u64, ctx::hash_str(&detail.to_string())])));
    ctx::count(&format!("rejected:{what}"), 1);
    if !matches!(o, Out::Err(..)) {
        ctx::violation(&format!("{what} is not rejected"), json!({"metric": m.name(), "outcome": format!("{o:?}"), "inputs": detail}));
    }
}
pub fn c10() {
    ctx::rule("pairs that must not be scored: differing luma/chroma dimensions (by 1, 2, 8, anything), differing chroma formats, differing depths, depth not fitting the sample type, streams changing size midway, streams without a common frame; every metric, frame and video entry points; distinct by mismatch and metric");
    par_cases(1, ctx::n(1500, 20000), |r, i| {
        let depth = *r.pick(&[8, 8, 10, 12]);
        let cs = *r.pick(&ALL_CS);
        let (xd, yd) = dec(cs);
        let (w, h) = (r.range(16 << xd, 60), r.range(16 << yd, 60));
        let a = Pic::gen(r, w, h, depth, cs, Content::Waves);
        let m = FRAME_METRICS[i % 6];
        match r.below(5) {
            0 => {
                let d = *r.pick(&[1usize, 1, 2, 3, 7, 8, 16]);
                let (w2, h2) = match r.below(3) {
                    0 => (w + d, h),
                    1 => (w, h + d),
                    _ => (w + d, h + d),
                };
                let b = Pic::gen(r, w2, h2, depth, cs, Content::Waves);
                let (x, y) = if r.chance(0.5) { (&a, &b) } else { (&b, &a) };
                must_reject("size mismatch", m, &api::pics(m, x, y), json!([x.desc(), y.desc()]));
            }
            1 => {
                let cs2 = *r.pick(&ALL_CS);
                if cs2 == cs {
                    return;
                }
                let b = Pic::gen(r, w, h, depth, cs2, Content::Waves);
                must_reject("chroma format mismatch", m, &api::pics(m, &a, &b), json!([a.desc(), b.desc()]));
            }
            2 => {
                // only one plane differs
                if cs == Cs400 {
                    return;
                }
                let mut b = a.clone();
                let k = r.range(1, 2);
                let q = &a.p[k];
                let (nw, nh) = if r.chance(0.5) { (q.w + 1, q.h) } else { (q.w, q.h + 1) };
                b.p[k] = Buf { w: nw, h: nh, d: vec![1; nw * nh] };
                must_reject("one plane differs in size", m, &api::pics(m, &a, &b), json!([a.desc(), k, nw, nh]));
            }
            3 => {
                // u8 samples declared deeper than 8 bits
                let a8 = Pic::gen(r, w, h, 8, cs, Content::Waves);
                let dd = r.range(9, 16);
                let (x, y) = (a8.frame::<u8>(), a8.frame::<u8>());
                must_reject("depth too large for 8-bit samples", m, &api::frame(m, &x, &y, dd, cs), json!([a8.desc(), dd]));
            }
            _ => {
                let a8 = Pic::gen(r, w, h, 8, cs, Content::Waves);
                let dd = r.range(1, 8);
                let (x, y) = (a8.frame::<u16>(), a8.frame::<u16>());
                must_reject("depth too small for 16-bit samples", m, &api::frame(m, &x, &y, dd, cs), json!([a8.desc(), dd]));
            }
        }
    });
    par_cases(2, ctx::n(400, 6000), |r, i| {
        let depth = *r.pick(&[8, 10, 12]);
        let cs = *r.pick(&COLOR_CS);
        let (xd, yd) = dec(cs);
        let (w, h, n) = (r.range(16 << xd, 40), r.range(16 << yd, 40), r.range(1, 5));
        let m = VIDEO_METRICS[i % 7];
        let mk = |r: &mut Rng, w, h, depth, cs| -> Vec<Pic> { (0..n).map(|_| Pic::gen(r, w, h, depth, cs, Content::Noise)).collect() };
        let a = mk(r, w, h, depth, cs);
        let mut b = mk(r, w, h, depth, cs);
        let what;
        match r.below(5) {
            0 => {
                what = "video depth mismatch";
                let d2 = *r.pick(&[8, 10, 12]);
                if d2 == depth {
                    return;
                }
                b = mk(r, w, h, d2, cs);
            }
            1 => {
                what = "video chroma format mismatch";
                let c2 = *r.pick(&ALL_CS);
                if c2 == cs {
                    return;
                }
                b = mk(r, w, h, depth, c2);
            }
            2 => {
                what = "video size mismatch";
                let d = *r.pick(&[1, 2, 8]);
                b = if r.chance(0.5) { mk(r, w + d, h, depth, cs) } else { mk(r, w, h + d, depth, cs) };
            }
            3 => {
                what = "size changes midway in one video";
                let k = r.below(n);
                b[k] = Pic::gen(r, w + 2, h, depth, cs, Content::Noise);
            }
            _ => {
                what = "no common frame";
                match r.below(3) {
                    0 => b.clear(),
                    1 => {
                        let mut a2 = a.clone();
                        a2.clear();
                        let o = video_det(m, &a, a2, b.clone(), None);
                        must_reject(what, m, &o, json!(["first empty", n]));
                        return;
                    }
                    _ => {
                        let o = video_of(m, a.clone(), b.clone(), Some(0));
                        must_reject(what, m, &o, json!(["limit 0", n]));
                        return;
                    }
                }
                let o = video_det(m, &a, a.clone(), b, None);
                must_reject(what, m, &o, json!(["second empty", n]));
                return;
            }
        }
        let (bd, ad) = (b[0].desc(), a[0].desc());
        let o = if r.chance(0.5) { video_of(m, a, b, None) } else { video_of(m, b, a, None) };
        must_reject(what, m, &o, json!([ad, bd, n]));
    });
    // sizes that round to the same padded size, through the bundled decoder
    crate::c_dec::c10_files();
}
/// video comparison whose decoders report `like`'s format even when they hold no frames
fn video_det(m: M, like: &[Pic], a: Vec<Pic>, b: Vec<Pic>, limit: Option<usize>) -> Out {
    let log = Arc::new(Log::default());
    let det = Mock::new(Arc::new(like.to_vec()), 1, log.clone()).details;
    let mut d1 = Mock::new(Arc::new(a), 1, log.clone());
    let mut d2 = Mock::new(Arc::new(b), 2, log);
    d1.details = det;
    d2.details = det;
    api::video(m, &mut d1, &mut d2, limit, |_| {})
}

// ---------------------------------------------------------------- C24
pub fn c24() {
    ctx::rule("averages of SSIM/MS-SSIM/PSNR-HVS compared with the weighted mean of the reported plane errors, and frame scores compared with one-frame video scores, over random pairs; non-trivial = planes differ");
    par_cases(1, ctx::n(1500, 25000), |r, i| {
        let depth = *r.pick(&[8, 8, 10, 12, 9, 16]);
        let cs = *r.pick(&ALL_CS);
        let (w, h) = any_size(r, cs, 60);
        let p = Pair::gen(r, w, h, depth, cs);
        let cw = refm::cweight(cs);
        for m in FRAME_METRICS {
            if !m.defined_for(&p.a) {
                continue;
            }
            let f = api::pics(m, &p.a, &p.b);
            let v = video_of(m, vec![p.a.clone()], vec![p.b.clone()], None);
            judged(&p, i, m, f.ok().unwrap_or(&[]));
            if f.ok().is_none() || !agree(m, &f, &v) {
                report("frame score and one-frame video score differ", i, &p, json!({"metric": m.name(), "frame": format!("{f:?}"), "video": format!("{v:?}")}));
                continue;
            }
            if m == M::Psnr {
                let v = video_of(M::Apsnr, vec![p.a.clone()], vec![p.b.clone()], None);
                if !agree(M::Psnr, &f, &v) {
                    report("frame PSNR and one-frame video APSNR differ", i, &p, json!({"frame": format!("{f:?}"), "video": format!("{v:?}")}));
                }
            }
            check_avg(m, f.ok().unwrap(), cw, i, &p);
        }
    });
    par_cases(2, ctx::n(150, 2500), |r, i| {
        let (depth, cs) = (*r.pick(&D3), *r.pick(&ALL_CS));
        let (xd, yd) = dec(cs);
        let (w, h, n) = (r.range(16 << xd, 50), r.range(16 << yd, 50), r.range(2, 6));
        let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(r, w, h, depth, cs)).collect();
        for m in [M::Ssim, M::Msssim, M::Hvs] {
            let o = video_of(m, ps.iter().map(|p| p.a.clone()).collect(), ps.iter().map(|p| p.b.clone()).collect(), None);
            ctx::case(Some(ctx::fnv(&[ps[0].hash(), n as u64, m as u64])));
            ctx::count("videos", 1);
            match o.ok() {
                Some(v) => check_avg(m, v, refm::cweight(cs), i, &ps[0]),
                None => report("no score", i, &ps[0], json!(format!("{o:?}"))),
            }
        }
    });
}
fn check_avg(m: M, v: &[f64], cw: f64, i: usize, p: &Pair) {
    if !m.is_db_err() {
        return;
    }
    let e: Vec<f64> = v.iter().map(|x| api::lin(*x)).collect();
    let want = (e[0] + cw * (e[1] + e[2])) / (1.0 + 2.0 * cw);
    let want_db = -10.0 * want.log10();
    let (abs, rel) = if m == M::Hvs { (1e-15, 1e-8) } else { (1e-12, 1e-8) };
    if near_err(v[3], want_db, abs, rel) {
        return;
    }
    // known finding, exact signature: PSNR-HVS divides by the inverse weight
    let quirk = -10.0 * (want * (1.0 + 2.0 * cw).powi(2)).log10();
    if m == M::Hvs && cw > 0.0 && near_err(v[3], quirk, abs, rel) {
        ctx::known("hvs-average-inverse-weight", "PSNR-HVS average is low by exactly 20*log10(1+2*chroma weight) dB: the weighted plane error sum is multiplied, not divided, by the total weight");
        return;
    }
    report("average does not follow the plane weighting", i, p, json!({"metric": m.name(), "scores": v, "expected_avg": want_db}));
}

// ---------------------------------------------------------------- C25
pub fn c25() {
    ctx::rule("every metric on pictures of every size 1..40 (plus random larger ones), all chroma formats incl. monochrome, depths 8..16, hostile contents, frame and video entry points, with overflow checks and debug assertions on: score required where defined, score or unsupported-input error elsewhere, never a panic; monochrome compared with the luma-only reference; distinct by content, metric and size");
    let one = |p: &Pair, i: usize| {
        for m in FRAME_METRICS {
            let o = api::pics(m, &p.a, &p.b);
            ctx::case(Some(ctx::fnv(&[p.hash(), m as u64])));
            let defined = m.defined_for(&p.a);
            ctx::count(if defined { "defined" } else { "undefined" }, 1);
            let ok = match &o {
                Out::Ok(v) => v.iter().all(|x| !x.is_nan()),
                Out::Err(k, _) => !defined && k == "UnsupportedInput",
                Out::Panic(_) => false,
            };
            if !ok {
                report("neither a score nor an unsupported-input error", i, p, json!({"metric": m.name(), "defined": defined, "outcome": format!("{o:?}")}));
            }
            if p.a.cs == Cs400 {
                mono(m, p, &o, i);
            }
        }
    };
    // exhaustive small sizes
    let sizes: Vec<(usize, usize)> = (1..=if ctx::thorough() { 40 } else { 20 }).flat_map(|w| (1..=20).map(move |h| (w, h))).collect();
    par_cases(1, sizes.len() * 4, |r, i| {
        let (w, h) = sizes[i / 4];
        let cs = ALL_CS[i % 4];
        let depth = *r.pick(&[8, 10, 12]);
        let p = Pair::gen(r, w, h, depth, cs);
        one(&p, i);
        ctx::count("exhaustive_sizes", 1);
    });
    par_cases(2, ctx::n(700, 15000), |r, i| {
        let depth = r.range(8, 16);
        let cs = *r.pick(&ALL_CS);
        let (w, h) = (size(r, 1, 90), size(r, 1, 90));
        let c = *r.pick(&[Content::Extremes, Content::Saturated, Content::Checker, Content::Noise, Content::Stripes, Content::Flat]);
        let d = *r.pick(&[Distort::Invert, Distort::Other, Distort::BigNoise, Distort::Same]);
        let p = Pair::of(r, w, h, depth, cs, c, d);
        one(&p, i);
        ctx::count(&format!("depth_{depth}"), 1);
    });
    // saturated full-scale pictures at every depth: the arithmetic extremes
    par_cases(3, 9 * 4, |r, i| {
        let depth = 8 + i % 9;
        let cs = ALL_CS[i / 9];
        let mut a = Pic::gen(r, 96, 80, depth, cs, Content::Saturated);
        let mx = a.max() as u16;
        for p in a.p.iter_mut() {
            p.d.fill(mx);
        }
        let mut b = a.clone();
        for p in b.p.iter_mut() {
            p.d.fill(0);
        }
        let c = a.distorted(r, Distort::Other);
        one(&Pair { a: a.clone(), b, content: Content::Saturated, distort: Distort::Invert }, i);
        one(&Pair { a: a.clone(), b: c, content: Content::Saturated, distort: Distort::Other }, i);
        one(&Pair { a: a.clone(), b: a, content: Content::Saturated, distort: Distort::Same }, i);
    });
    // videos
    par_cases(4, ctx::n(400, 6000), |r, i| {
        let depth = *r.pick(&[8, 8, 10, 12, 9, 14, 16]);
        let cs = *r.pick(&[Cs400, Cs400, Cs420, Cs422, Cs444]);
        let (w, h, n) = (size(r, 1, 40), size(r, 1, 40), r.range(1, 12));
        let ps: Vec<Pair> = (0..n).map(|_| Pair::gen(r, w, h, depth, cs)).collect();
        for m in VIDEO_METRICS {
            let o = video_of(m, ps.iter().map(|p| p.a.clone()).collect(), ps.iter().map(|p| p.b.clone()).collect(), None);
            ctx::case(Some(ctx::fnv(&[ps[0].hash(), n as u64, m as u64])));
            ctx::count("videos", 1);
            let defined = m.defined_for(&ps[0].a);
            let ok = match &o {
                Out::Ok(v) => v.iter().all(|x| !x.is_nan()),
                Out::Err(..) => !defined,
                Out::Panic(_) => false,
            };
            if !ok {
                report("video: neither a score nor an error", i, &ps[0], json!({"metric": m.name(), "frames": n, "defined": defined, "outcome": format!("{o:?}")}));
            }
        }
    });
}
fn mono(m: M, p: &Pair, o: &Out, i: usize) {
    // the same luma with constant neutral chroma in 4:4:4
    let lift = |a: &Pic| {
        let mut b = Pic::blank(a.w, a.h, a.depth, Cs444);
        b.p[0] = a.p[0].clone();
        for k in 1..3 {
            b.p[k].d.fill(128 << (a.depth - 8));
        }
        b
    };
    let q = api::pics(m, &lift(&p.a), &lift(&p.b));
    let ok = match (o, &q) {
        (Out::Ok(v), Out::Ok(q)) if v.len() == 1 => near(v[0], q[0], 0.02),
        (Out::Ok(v), Out::Ok(q)) => {
            let top = |x: f64| if m == M::Psnr { x == 100.0 } else { x > 110.0 };
            let same = |x: f64, y: f64| if m.is_db_err() { near_err(x, y, 1e-12, 1e-9) } else { near(x, y, 1e-9) };
            same(v[0], q[0]) && same(v[3], v[0]) && top(v[1]) && top(v[2])
        }
        (Out::Err(k, _), Out::Err(l, _)) => k == l,
        _ => false,
    };
    ctx::count("mono_vs_luma", 1);
    if !ok {
        report("monochrome does not score as its luma plane", i, p, json!({"metric": m.name(), "mono": format!("{o:?}"), "luma_444": format!("{q:?}")}));
    }
}
