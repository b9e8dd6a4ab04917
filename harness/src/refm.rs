//! Reference models: written from the published definitions, deliberately direct and slow.
use crate::gen::{cdims, dec, Buf, Cs400, Pic};
use v_frame::pixel::ChromaSampling;

pub fn cweight(c: ChromaSampling) -> f64 {
    match c {
        ChromaSampling::Cs420 => 0.25,
        ChromaSampling::Cs422 => 0.5,
        ChromaSampling::Cs444 => 1.0,
        ChromaSampling::Cs400 => 0.0,
    }
}

// ---------- PSNR ----------
pub fn sqerr(a: &Buf, b: &Buf) -> (u128, u128) {
    let mut e = 0u128;
    for (x, y) in a.d.iter().zip(&b.d) {
        let d = *x as i64 - *y as i64;
        e += (d * d) as u128;
    }
    (e, (a.w * a.h) as u128)
}
pub fn psnr_db(e: u128, n: u128, max: u64) -> f64 {
    if e == 0 {
        return 100.0;
    }
    let mse = e as f64 / n as f64;
    (10.0 * ((max as f64) * (max as f64) / mse).log10()).min(100.0)
}
pub fn psnr(a: &Pic, b: &Pic) -> Vec<f64> {
    let m = a.max();
    let mut out = vec![];
    let (mut te, mut tn) = (0, 0);
    for i in 0..3 {
        let (e, n) = sqerr(&a.p[i], &b.p[i]);
        te += e;
        tn += n;
        out.push(psnr_db(e, n, m));
    }
    out.push(psnr_db(te, tn, m));
    out
}

// ---------- SSIM ----------
fn kernel(sigma: f64, max_len: usize, weight: i64) -> Vec<i64> {
    // radius at which the pdf falls to half a unit of the integer kernel weight
    let s = (std::f64::consts::PI / 2.0).sqrt() * sigma / weight as f64;
    let mut radius = if s >= 1.0 { 0 } else { (sigma * (-2.0 * s.ln()).sqrt()).floor() as usize };
    if radius >= max_len {
        radius = max_len - 1;
    }
    let pdf = |d: f64| (-(d * d) / (2.0 * sigma * sigma)).exp() / (sigma * (2.0 * std::f64::consts::PI).sqrt());
    let mut k = vec![0i64; 2 * radius + 1];
    let mut side = 0;
    for d in 1..=radius {
        let v = (weight as f64 * pdf(d as f64) + 0.5).floor() as i64;
        k[radius - d] = v;
        k[radius + d] = v;
        side += v;
    }
    k[radius] = weight - 2 * side;
    k
}

/// (weighted mean ssim, weighted mean cs) computed from the 2-D window directly.
fn ssim_windows(a: &[u64], b: &[u64], w: usize, h: usize, max: f64, k: &[i64]) -> (f64, f64) {
    let r = (k.len() / 2) as isize;
    let (mut s, mut c, mut wt) = (0.0f64, 0.0f64, 0.0f64);
    // horizontal pass in exact integers, vertical in exact integers as well
    let mut hm = vec![[0i128; 6]; w * h];
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i128; 6];
            for (i, kv) in k.iter().enumerate() {
                let xx = x as isize + i as isize - r;
                if xx < 0 || xx >= w as isize {
                    continue;
                }
                let p = a[y * w + xx as usize] as i128;
                let q = b[y * w + xx as usize] as i128;
                let kv = *kv as i128;
                m[0] += kv;
                m[1] += kv * p;
                m[2] += kv * q;
                m[3] += kv * p * p;
                m[4] += kv * q * q;
                m[5] += kv * p * q;
            }
            hm[y * w + x] = m;
        }
    }
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i128; 6];
            for (i, kv) in k.iter().enumerate() {
                let yy = y as isize + i as isize - r;
                if yy < 0 || yy >= h as isize {
                    continue;
                }
                let t = &hm[yy as usize * w + x];
                for j in 0..6 {
                    m[j] += *kv as i128 * t[j];
                }
            }
            let n = m[0] as f64;
            let (mp, mq) = (m[1] as f64 / n, m[2] as f64 / n);
            // exact second central moments: (n*S2 - S1^2) / n^2
            let vp = (m[0] * m[3] - m[1] * m[1]) as f64 / (n * n);
            let vq = (m[0] * m[4] - m[2] * m[2]) as f64 / (n * n);
            let cv = (m[0] * m[5] - m[1] * m[2]) as f64 / (n * n);
            let c1 = (0.01 * max).powi(2);
            let c2 = (0.03 * max).powi(2);
            let cs = (2.0 * cv + c2) / (vp + vq + c2);
            let l = (2.0 * mp * mq + c1) / (mp * mp + mq * mq + c1);
            s += n * cs * l;
            c += n * cs;
            wt += n;
        }
    }
    (s / wt, c / wt)
}
fn wide(b: &Buf) -> Vec<u64> {
    b.d.iter().map(|v| *v as u64).collect()
}
/// mean structural similarity of a plane (1 for an absent plane)
pub fn ssim_plane(a: &Buf, b: &Buf, depth: usize) -> f64 {
    if a.d.is_empty() {
        return 1.0;
    }
    let k = kernel(a.h as f64 * 1.5 / 256.0, a.w.min(a.h), 256);
    ssim_windows(&wide(a), &wide(b), a.w, a.h, ((1u64 << depth) - 1) as f64, &k).0
}
pub fn msssim_plane(a: &Buf, b: &Buf, depth: usize) -> f64 {
    if a.d.is_empty() {
        return 1.0;
    }
    let wts = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
    let k = kernel(1.5, 5, 1024);
    let (mut pa, mut pb, mut w, mut h) = (wide(a), wide(b), a.w, a.h);
    let mut max = ((1u64 << depth) - 1) as f64;
    let mut prod = 1.0;
    for (i, wt) in wts.iter().enumerate() {
        let (s, c) = ssim_windows(&pa, &pb, w, h, max, &k);
        prod *= (if i == 4 { s } else { c }).max(0.0).powf(*wt);
        let half = |p: &[u64]| -> Vec<u64> {
            let mut o = Vec::new();
            for y in 0..h / 2 {
                for x in 0..w / 2 {
                    let i = 2 * y * w + 2 * x;
                    o.push(p[i] + p[i + 1] + p[i + w] + p[i + w + 1]);
                }
            }
            o
        };
        let (na, nb) = (half(&pa), half(&pb));
        pa = na;
        pb = nb;
        w /= 2;
        h /= 2;
        max *= 4.0;
    }
    prod
}

// ---------- PSNR-HVS ----------
include!("csf.rs");

fn rshift1(a: i64) -> i64 {
    // divide by two, rounding towards zero
    a / 2
}
/// Daala's integer 8-point type-II DCT (lifting form), input in natural order.
fn fdct8(x: [i64; 8]) -> [i64; 8] {
    let lift = |a: i64, m: i64, sh: u32| (a * m + (1 << (sh - 1))) >> sh;
    let [x0, x4, x2, x6, x7, x3, x5, x1] = x;
    let (mut t0, mut t1, mut t2, mut t3, mut t4, mut t5, mut t6, mut t7) = (x0, x1, x2, x3, x4, x5, x6, x7);
    t1 = t0 - t1;
    let h1 = rshift1(t1);
    t0 -= h1;
    t4 += t5;
    let h4 = rshift1(t4);
    t5 -= h4;
    t3 = t2 - t3;
    t2 -= rshift1(t3);
    t6 += t7;
    let h6 = rshift1(t6);
    t7 = h6 - t7;
    // 4-point type II
    t0 += h6;
    t6 = t0 - t6;
    t2 = h4 - t2;
    t4 = t2 - t4;
    // rotation pi/8-type lifts on (t0,t4)
    t0 -= lift(t4, 13573, 15);
    t4 += lift(t0, 11585, 14);
    t0 -= lift(t4, 13573, 15);
    t6 -= lift(t2, 21895, 15);
    t2 += lift(t6, 15137, 14);
    t6 -= lift(t2, 21895, 15);
    // 4-point type IV on the odd half
    t3 += lift(t5, 19195, 15);
    t5 += lift(t3, 11585, 14);
    t3 -= lift(t5, 7489, 13);
    t7 = rshift1(t5) - t7;
    t5 -= t7;
    t3 = h1 - t3;
    t1 -= t3;
    t7 += lift(t1, 3227, 15);
    t1 -= lift(t7, 6393, 15);
    t7 += lift(t1, 3227, 15);
    t5 += lift(t3, 2485, 13);
    t3 -= lift(t5, 18205, 15);
    t5 += lift(t3, 2485, 13);
    [t0, t1, t2, t3, t4, t5, t6, t7]
}
fn fdct8x8(b: &[[i64; 8]; 8]) -> [[i64; 8]; 8] {
    let mut z = [[0i64; 8]; 8];
    for c in 0..8 {
        let mut col = [0; 8];
        for (r, v) in col.iter_mut().enumerate() {
            *v = b[r][c];
        }
        z[c] = fdct8(col);
    }
    let mut o = [[0i64; 8]; 8];
    for i in 0..8 {
        let mut col = [0; 8];
        for (r, v) in col.iter_mut().enumerate() {
            *v = z[r][i];
        }
        o[i] = fdct8(col);
    }
    o
}
/// sample variance sums as the metric defines them (n/(n-1) scaled sum of squares)
fn spread(v: &[f64]) -> f64 {
    let n = v.len() as f64;
    let m = v.iter().sum::<f64>() / n;
    v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() * n / (n - 1.0)
}
/// (mean weighted squared error relative to max^2) of a plane; 0 for an absent plane
pub fn hvs_plane(a: &Buf, b: &Buf, plane: usize, depth: usize) -> f64 {
    if a.d.is_empty() {
        return 0.0;
    }
    let csf = [&CSF_Y, &CSF_CB, &CSF_CR][plane];
    let mask = |i: usize, j: usize| (csf[i][j] * 0.3885746225901003).powi(2);
    let mut total = 0.0f64;
    let mut n = 0u64;
    let mut y = 0;
    while y + 8 <= a.h {
        let mut x = 0;
        while x + 8 <= a.w {
            let get = |p: &Buf| {
                let mut o = [[0i64; 8]; 8];
                for i in 0..8 {
                    for j in 0..8 {
                        o[i][j] = p.d[(y + i) * p.w + x + j] as i64;
                    }
                }
                o
            };
            let act = |o: &[[i64; 8]; 8], d: &[[i64; 8]; 8]| -> f64 {
                let all: Vec<f64> = o.iter().flatten().map(|v| *v as f64).collect();
                let g = spread(&all);
                let mut q = 0.0;
                for (r0, c0) in [(0, 0), (0, 4), (4, 0), (4, 4)] {
                    let mut v = vec![];
                    for i in 0..4 {
                        for j in 0..4 {
                            v.push(o[r0 + i][c0 + j] as f64);
                        }
                    }
                    q += spread(&v);
                }
                let ratio = if g > 0.0 { q / g } else { g };
                let mut e = 0.0;
                for i in 0..8 {
                    for j in 0..8 {
                        if i + j > 0 {
                            e += (d[i][j] * d[i][j]) as f64 * mask(i, j);
                        }
                    }
                }
                (e * ratio).sqrt() / 32.0
            };
            let (oa, ob) = (get(a), get(b));
            let (da, db) = (fdct8x8(&oa), fdct8x8(&ob));
            let m = act(&oa, &da).max(act(&ob, &db));
            for i in 0..8 {
                for j in 0..8 {
                    let mut e = (da[i][j] - db[i][j]).abs() as f64;
                    if i + j > 0 {
                        e = (e - m / mask(i, j)).max(0.0);
                    }
                    total += (e * csf[i][j]).powi(2);
                    n += 1;
                }
            }
            x += 7;
        }
        y += 7;
    }
    let max = ((1u64 << depth) - 1) as f64;
    total / n as f64 / (max * max)
}

// ---------- CIEDE2000 ----------
fn lab(y: u16, u: u16, v: u16, depth: usize) -> [f64; 3] {
    let sc = (1u32 << (depth - 8)) as f64;
    let yy = (y as f64 - 16.0 * sc) / (219.0 * sc);
    let uu = (u as f64 - 128.0 * sc) / (224.0 * sc);
    let vv = (v as f64 - 128.0 * sc) / (224.0 * sc);
    let rgb = [yy + 1.28033 * vv, yy - 0.21482 * uu - 0.38059 * vv, yy + 2.12798 * uu];
    let g = |c: f64| if c > 10.0 / 255.0 { ((c + 0.055) / 1.055).powf(2.4) } else { c / 12.92 };
    let (r, gg, b) = (g(rgb[0]), g(rgb[1]), g(rgb[2]));
    let x = r * 0.4124564390896921 + gg * 0.357576077643909 + b * 0.18043748326639894;
    let yv = r * 0.21267285140562248 + gg * 0.715152155287818 + b * 0.07217499330655958;
    let z = r * 0.019333895582329317 + gg * 0.119192025881303 + b * 0.9503040785363677;
    let f = |c: f64| {
        if c > 216.0 / 24389.0 {
            c.cbrt()
        } else {
            (24389.0 / 27.0 * c + 16.0) / 116.0
        }
    };
    let (fx, fy, fz) = (f(x / 0.95047), f(yv), f(z / 1.08883));
    [116.0 * fy - 16.0, 500.0 * (fx - fy), 200.0 * (fy - fz)]
}
/// CIEDE2000 with kL=0.65 kC=1 kH=4 (Sharma, Wu, Dalal 2005). The formula jumps where the two hues
/// are opposite; next to that line single precision may land on either side, so a range is returned.
fn ciede2000(p: [f64; 3], q: [f64; 3]) -> (f64, f64) {
    let (d, off) = ciede2000_side(p, q, false);
    if off < HUE_SLACK {
        let (e, _) = ciede2000_side(p, q, true);
        (d.min(e), d.max(e))
    } else {
        (d, d)
    }
}
/// degrees of hue within which single precision cannot tell the side of the jump
const HUE_SLACK: f64 = 0.02;
/// The colour difference, and how far (degrees) the hues are from being opposite.
fn ciede2000_side(p: [f64; 3], q: [f64; 3], other_side: bool) -> (f64, f64) {
    let (kl, kc, kh) = (0.65, 1.0, 4.0);
    let deg = 180.0 / std::f64::consts::PI;
    let c = |t: [f64; 3]| (t[1] * t[1] + t[2] * t[2]).sqrt();
    let cb = (c(p) + c(q)) / 2.0;
    let g = 0.5 * (1.0 - (cb.powi(7) / (cb.powi(7) + 25f64.powi(7))).sqrt());
    let prime = |t: [f64; 3]| {
        let a = t[1] * (1.0 + g);
        let cc = (a * a + t[2] * t[2]).sqrt();
        let mut h = if a == 0.0 && t[2] == 0.0 { 0.0 } else { t[2].atan2(a) * deg };
        if h < 0.0 {
            h += 360.0;
        }
        (cc, h)
    };
    let ((c1, h1), (c2, h2)) = (prime(p), prime(q));
    let dl = q[0] - p[0];
    let dc = c2 - c1;
    let dh = if c1 * c2 == 0.0 {
        0.0
    } else if ((h2 - h1).abs() <= 180.0) != other_side {
        h2 - h1
    } else if h2 <= h1 {
        h2 - h1 + 360.0
    } else {
        h2 - h1 - 360.0
    };
    let dhh = 2.0 * (c1 * c2).sqrt() * (dh / 2.0 / deg).sin();
    let lb = (p[0] + q[0]) / 2.0;
    let cbp = (c1 + c2) / 2.0;
    let hb = if c1 * c2 == 0.0 {
        h1 + h2
    } else if ((h1 - h2).abs() <= 180.0) != other_side {
        (h1 + h2) / 2.0
    } else if h1 + h2 < 360.0 {
        (h1 + h2 + 360.0) / 2.0
    } else {
        (h1 + h2 - 360.0) / 2.0
    };
    let cosd = |d: f64| (d / deg).cos();
    let t = 1.0 - 0.17 * cosd(hb - 30.0) + 0.24 * cosd(2.0 * hb) + 0.32 * cosd(3.0 * hb + 6.0)
        - 0.20 * cosd(4.0 * hb - 63.0);
    let sl = 1.0 + 0.015 * (lb - 50.0).powi(2) / (20.0 + (lb - 50.0).powi(2)).sqrt();
    let scc = 1.0 + 0.045 * cbp;
    let sh = 1.0 + 0.015 * cbp * t;
    let dth = 30.0 * (-((hb - 275.0) / 25.0).powi(2)).exp();
    let rc = 2.0 * (cbp.powi(7) / (cbp.powi(7) + 25f64.powi(7))).sqrt();
    let rt = -(2.0 * dth / deg).sin() * rc;
    let (l, cc, hh) = (dl / (kl * sl), dc / (kc * scc), dhh / (kh * sh));
    let off = if c1 * c2 == 0.0 { f64::INFINITY } else { ((h2 - h1).abs() - 180.0).abs() };
    ((l * l + cc * cc + hh * hh + rt * cc * hh).max(0.0).sqrt(), off)
}
/// mean colour difference over the visible luma samples (lowest and highest admissible value)
pub fn ciede_mean(a: &Pic, b: &Pic) -> (f64, f64) {
    let (xd, yd) = dec(a.cs);
    let (cw, _) = cdims(a.cs, a.w, a.h);
    let mid = 128u16 << (a.depth - 8);
    let px = |p: &Pic, x: usize, y: usize| {
        let (u, v) = if p.cs == Cs400 {
            (mid, mid)
        } else {
            let i = (y >> yd) * cw + (x >> xd);
            (p.p[1].d[i], p.p[2].d[i])
        };
        lab(p.p[0].d[y * p.w + x], u, v, p.depth)
    };
    let mut s = (0.0, 0.0);
    for y in 0..a.h {
        for x in 0..a.w {
            let (lo, hi) = ciede2000(px(a, x, y), px(b, x, y));
            s = (s.0 + lo, s.1 + hi);
        }
    }
    let n = (a.w * a.h) as f64;
    (s.0 / n, s.1 / n)
}
pub fn ciede_score(mean: f64) -> f64 {
    (45.0 - 20.0 * mean.log10()).min(100.0)
}

// ---------- chroma siting ----------
pub fn siting_filter(row: &[u16], depth: usize) -> Vec<u16> {
    let n = row.len() as isize;
    let taps = [4i64, -17, 114, 35, -9, 1];
    let max = (1i64 << depth) - 1;
    (0..n)
        .map(|x| {
            let mut s = 64i64;
            for (k, t) in taps.iter().enumerate() {
                let i = (x + k as isize - 2).clamp(0, n - 1);
                s += t * row[i as usize] as i64;
            }
            (s >> 7).clamp(0, max) as u16
        })
        .collect()
}
