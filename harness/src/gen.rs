//! Picture generation and storage layouts.
use crate::ctx::Rng;
use v_frame::frame::Frame;
use v_frame::pixel::{CastFromPrimitive, ChromaSampling, Pixel};
use v_frame::plane::{Plane, PlaneConfig, PlaneData};

#[derive(Clone, PartialEq, Debug)]
pub struct Buf {
    pub w: usize,
    pub h: usize,
    pub d: Vec<u16>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub depth: usize,
    pub cs: ChromaSampling,
    pub p: [Buf; 3],
}
pub use ChromaSampling::{Cs400, Cs420, Cs422, Cs444};
pub const ALL_CS: [ChromaSampling; 4] = [Cs420, Cs422, Cs444, Cs400];
pub const COLOR_CS: [ChromaSampling; 3] = [Cs420, Cs422, Cs444];

pub fn cs_name(c: ChromaSampling) -> &'static str {
    match c {
        Cs420 => "420",
        Cs422 => "422",
        Cs444 => "444",
        Cs400 => "400",
    }
}
pub fn dec(c: ChromaSampling) -> (usize, usize) {
    match c {
        Cs420 => (1, 1),
        Cs422 => (1, 0),
        _ => (0, 0),
    }
}
pub fn cdims(c: ChromaSampling, w: usize, h: usize) -> (usize, usize) {
    if c == Cs400 {
        return (0, 0);
    }
    let (x, y) = dec(c);
    ((w + x) >> x, (h + y) >> y)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Content {
    Flat,
    Noise,
    Gradient,
    Waves,
    Extremes,
    Checker,
    Dark,
    Blocks,
    Saturated,
    Stripes,
}
pub const CONTENTS: [Content; 10] = [
    Content::Flat,
    Content::Noise,
    Content::Gradient,
    Content::Waves,
    Content::Extremes,
    Content::Checker,
    Content::Dark,
    Content::Blocks,
    Content::Saturated,
    Content::Stripes,
];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Distort {
    Same,
    OneSample,
    SmallNoise,
    BigNoise,
    Offset,
    Invert,
    Quantise,
    Blur,
    ShiftX,
    ShiftY,
    Other,
    OnePlane,
    LastSamples,
    Contrast,
}
pub const DISTORTS: [Distort; 14] = [
    Distort::Same,
    Distort::OneSample,
    Distort::SmallNoise,
    Distort::BigNoise,
    Distort::Offset,
    Distort::Invert,
    Distort::Quantise,
    Distort::Blur,
    Distort::ShiftX,
    Distort::ShiftY,
    Distort::Other,
    Distort::OnePlane,
    Distort::LastSamples,
    Distort::Contrast,
];

fn fill(r: &mut Rng, w: usize, h: usize, depth: usize, c: Content) -> Buf {
    let max = (1u32 << depth) - 1;
    let m = max as f64;
    let mut d = vec![0u16; w * h];
    let base = r.below(max as usize + 1) as u32;
    let (fx, fy, ph) = (r.f() * 0.8, r.f() * 0.8, r.f() * 6.3);
    let (gx, gy) = (r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0);
    let amp = r.f();
    let bs = r.range(2, 16);
    let cb = r.range(1, 4);
    let bl: Vec<u32> = (0..64).map(|_| r.below(max as usize + 1) as u32).collect();
    for y in 0..h {
        for x in 0..w {
            let v = match c {
                Content::Flat => base,
                Content::Noise => r.below(max as usize + 1) as u32,
                Content::Gradient => {
                    let t = 0.5 + 0.5 * (gx * (x as f64 / w as f64) + gy * (y as f64 / h as f64));
                    (t.clamp(0.0, 1.0) * m) as u32
                }
                Content::Waves => {
                    let t = 0.5
                        + 0.25 * amp * ((fx * x as f64 + ph).sin() + (fy * y as f64 - ph).cos())
                        + (r.f() - 0.5) * 0.04;
                    (t.clamp(0.0, 1.0) * m) as u32
                }
                Content::Extremes => {
                    if r.chance(0.5) {
                        0
                    } else {
                        max
                    }
                }
                Content::Checker => {
                    if (x / cb + y / cb) % 2 == 0 {
                        base
                    } else {
                        max - base
                    }
                }
                Content::Dark => {
                    let lo = max / 16;
                    lo + r.below((max / 24) as usize + 1) as u32
                }
                Content::Blocks => {
                    let b = bl[((x / bs) * 7 + (y / bs) * 13) % 64];
                    (b + r.below(3) as u32).min(max)
                }
                Content::Saturated => {
                    if r.chance(0.1) {
                        r.below(max as usize + 1) as u32
                    } else if base > max / 2 {
                        max
                    } else {
                        0
                    }
                }
                Content::Stripes => {
                    if (if gx > 0.0 { x } else { y }) % (cb + 1) == 0 {
                        max - base / 4
                    } else {
                        base / 3
                    }
                }
            };
            d[y * w + x] = v.min(max) as u16;
        }
    }
    Buf { w, h, d }
}

fn distort(r: &mut Rng, a: &Buf, depth: usize, k: Distort) -> Buf {
    let max = (1i64 << depth) - 1;
    let mut b = a.clone();
    let (w, h) = (a.w, a.h);
    if w == 0 || h == 0 {
        return b;
    }
    let off = r.irange(-(max / 3) - 1, max / 3 + 1);
    let q = 1i64 << r.range(1, depth - 2);
    let s = r.range(1, 4);
    let step = (1i64 << (depth - 8)).max(1);
    match k {
        Distort::Same | Distort::OnePlane => {}
        Distort::OneSample => {
            let i = r.below(w * h);
            b.d[i] = if (b.d[i] as i64) < max { b.d[i] + 1 } else { b.d[i] - 1 };
        }
        Distort::LastSamples => {
            // last row, last column and the corners: what off-by-one loops miss
            for x in 0..w {
                let i = (h - 1) * w + x;
                if r.chance(0.7) {
                    b.d[i] = r.below(max as usize + 1) as u16;
                }
            }
            for y in 0..h {
                let i = y * w + w - 1;
                if r.chance(0.7) {
                    b.d[i] = r.below(max as usize + 1) as u16;
                }
            }
            b.d[w * h - 1] = (max - a.d[w * h - 1] as i64) as u16;
        }
        Distort::Other => {
            let c = *r.pick(&CONTENTS);
            b = fill(r, w, h, depth, c);
        }
        Distort::ShiftX => {
            for y in 0..h {
                for x in 0..w {
                    b.d[y * w + x] = a.d[y * w + (x + s).min(w - 1)];
                }
            }
        }
        Distort::ShiftY => {
            for y in 0..h {
                for x in 0..w {
                    b.d[y * w + x] = a.d[(y + s).min(h - 1) * w + x];
                }
            }
        }
        Distort::Blur => {
            for y in 0..h {
                for x in 0..w {
                    let mut t = 0i64;
                    let mut n = 0i64;
                    for yy in y.saturating_sub(1)..(y + 2).min(h) {
                        for xx in x.saturating_sub(1)..(x + 2).min(w) {
                            t += a.d[yy * w + xx] as i64;
                            n += 1;
                        }
                    }
                    b.d[y * w + x] = (t / n) as u16;
                }
            }
        }
        _ => {
            for v in b.d.iter_mut() {
                let x = *v as i64;
                let y = match k {
                    Distort::SmallNoise => x + r.irange(-2, 2) * step,
                    Distort::BigNoise => x + r.irange(-max / 4 - 1, max / 4 + 1),
                    Distort::Offset => x + off,
                    Distort::Invert => max - x,
                    Distort::Quantise => x / q * q + q / 2,
                    Distort::Contrast => max / 2 + (x - max / 2) * 3 / 4,
                    _ => x,
                };
                *v = y.clamp(0, max) as u16;
            }
        }
    }
    b
}

impl Pic {
    pub fn blank(w: usize, h: usize, depth: usize, cs: ChromaSampling) -> Pic {
        let (cw, ch) = cdims(cs, w, h);
        let b = |w: usize, h: usize| Buf { w, h, d: vec![0; w * h] };
        Pic { w, h, depth, cs, p: [b(w, h), b(cw, ch), b(cw, ch)] }
    }
    pub fn gen(r: &mut Rng, w: usize, h: usize, depth: usize, cs: ChromaSampling, c: Content) -> Pic {
        let (cw, ch) = cdims(cs, w, h);
        let c1 = if r.chance(0.5) { c } else { *r.pick(&CONTENTS) };
        let c2 = if r.chance(0.5) { c } else { *r.pick(&CONTENTS) };
        Pic {
            w,
            h,
            depth,
            cs,
            p: [fill(r, w, h, depth, c), fill(r, cw, ch, depth, c1), fill(r, cw, ch, depth, c2)],
        }
    }
    pub fn distorted(&self, r: &mut Rng, k: Distort) -> Pic {
        let mut o = self.clone();
        if k == Distort::OnePlane {
            let i = r.below(3);
            o.p[i] = distort(r, &self.p[i], self.depth, Distort::BigNoise);
            return o;
        }
        for i in 0..3 {
            o.p[i] = distort(r, &self.p[i], self.depth, k);
        }
        o
    }
    pub fn max(&self) -> u64 {
        (1u64 << self.depth) - 1
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for p in &self.p {
            for v in &p.d {
                h = (h ^ *v as u64).wrapping_mul(0x1000_0000_01b3);
            }
        }
        crate::ctx::fnv(&[h, self.w as u64, self.h as u64, self.depth as u64, dec(self.cs).0 as u64])
    }
    pub fn desc(&self) -> String {
        format!("{}x{} {} {}-bit", self.w, self.h, cs_name(self.cs), self.depth)
    }
    pub fn frame<T: Pixel>(&self) -> Frame<T> {
        self.frame_in::<T>(&Layout::plain(), &mut Rng::new(1))
    }
    pub fn frame_in<T: Pixel>(&self, l: &Layout, r: &mut Rng) -> Frame<T> {
        let (xd, yd) = dec(self.cs);
        let mk = |i: usize, r: &mut Rng| -> Plane<T> {
            let b = &self.p[i];
            let (xd, yd) = if i == 0 { (0, 0) } else { (xd, yd) };
            let mut p = match l.kind {
                Kind::VFrame => Plane::<T>::new(b.w, b.h, xd, yd, l.xpad >> xd, l.ypad >> yd),
                Kind::Tight => {
                    let cfg = PlaneConfig {
                        stride: b.w,
                        alloc_height: b.h,
                        width: b.w,
                        height: b.h,
                        xdec: xd,
                        ydec: yd,
                        xpad: 0,
                        ypad: 0,
                        xorigin: 0,
                        yorigin: 0,
                    };
                    Plane { data: PlaneData::new(b.w * b.h), cfg }
                }
                Kind::Custom => {
                    let (xo, yo) = (l.xpad >> xd, l.ypad >> yd);
                    let cfg = PlaneConfig {
                        stride: xo + b.w + l.xright,
                        alloc_height: yo + b.h + l.ybottom,
                        width: b.w,
                        height: b.h,
                        xdec: xd,
                        ydec: yd,
                        xpad: l.xright,
                        ypad: l.ybottom,
                        xorigin: xo,
                        yorigin: yo,
                    };
                    let len = cfg.stride * cfg.alloc_height;
                    Plane { data: PlaneData::new(len), cfg }
                }
            };
            let max = (1usize << self.depth) - 1;
            match l.fill {
                Fill::Keep => {}
                Fill::Noise => {
                    for v in p.data.iter_mut() {
                        *v = T::cast_from(r.below(max + 1) as u16);
                    }
                }
                Fill::Max => {
                    for v in p.data.iter_mut() {
                        *v = T::cast_from(max as u16);
                    }
                }
                Fill::Zero => {
                    for v in p.data.iter_mut() {
                        *v = T::cast_from(0u16);
                    }
                }
            }
            let c = p.cfg.clone();
            for y in 0..b.h {
                for x in 0..b.w {
                    p.data[(y + c.yorigin) * c.stride + c.xorigin + x] = T::cast_from(b.d[y * b.w + x]);
                }
            }
            p
        };
        let p0 = mk(0, r);
        let p1 = mk(1, r);
        let p2 = mk(2, r);
        Frame { planes: [p0, p1, p2] }
    }
    pub fn swap_uv(&self) -> Pic {
        let mut o = self.clone();
        o.p.swap(1, 2);
        o
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    VFrame,
    Tight,
    Custom,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fill {
    Keep,
    Noise,
    Max,
    Zero,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Layout {
    pub kind: Kind,
    pub xpad: usize,
    pub ypad: usize,
    pub xright: usize,
    pub ybottom: usize,
    pub fill: Fill,
}
impl Layout {
    pub fn plain() -> Layout {
        Layout { kind: Kind::VFrame, xpad: 0, ypad: 0, xright: 0, ybottom: 0, fill: Fill::Keep }
    }
    pub fn tight() -> Layout {
        Layout { kind: Kind::Tight, ..Layout::plain() }
    }
    pub fn random(r: &mut Rng) -> Layout {
        let kind = *r.pick(&[Kind::VFrame, Kind::VFrame, Kind::Tight, Kind::Custom, Kind::Custom]);
        let z = |r: &mut Rng, n: usize| if r.chance(0.3) { 0 } else { r.below(n) };
        Layout {
            kind,
            xpad: z(r, 80),
            ypad: z(r, 40),
            xright: z(r, 40),
            ybottom: z(r, 20),
            fill: *r.pick(&[Fill::Noise, Fill::Noise, Fill::Max, Fill::Zero, Fill::Keep]),
        }
    }
}

/// Reads the visible samples of a plane.
pub fn visible<T: Pixel>(p: &Plane<T>) -> Buf {
    let c = &p.cfg;
    let mut d = Vec::with_capacity(c.width * c.height);
    for y in 0..c.height {
        for x in 0..c.width {
            d.push(u16::cast_from(p.data[(y + c.yorigin) * c.stride + c.xorigin + x]));
        }
    }
    Buf { w: c.width, h: c.height, d }
}

/// A size that stresses block, vector and window edges.
pub fn size(r: &mut Rng, lo: usize, hi: usize) -> usize {
    let pool = [
        1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 18, 20, 21, 22, 23, 24, 29, 30, 31, 32, 33, 34, 36,
        40, 47, 48, 50, 63, 64, 65, 66, 72, 80, 95, 96, 97, 100, 127, 128, 129, 130, 144, 160, 192, 200, 256,
    ];
    let c: Vec<usize> = pool.iter().copied().filter(|v| *v >= lo && *v <= hi).collect();
    if c.is_empty() || r.chance(0.35) {
        r.range(lo, hi)
    } else {
        *r.pick(&c)
    }
}

pub struct Pair {
    pub a: Pic,
    pub b: Pic,
    pub content: Content,
    pub distort: Distort,
}
impl Pair {
    pub fn gen(r: &mut Rng, w: usize, h: usize, depth: usize, cs: ChromaSampling) -> Pair {
        let content = *r.pick(&CONTENTS);
        let distort = *r.pick(&DISTORTS);
        Self::of(r, w, h, depth, cs, content, distort)
    }
    pub fn of(r: &mut Rng, w: usize, h: usize, depth: usize, cs: ChromaSampling, content: Content, distort: Distort) -> Pair {
        let a = Pic::gen(r, w, h, depth, cs, content);
        let b = a.distorted(r, distort);
        Pair { a, b, content, distort }
    }
    pub fn hash(&self) -> u64 {
        crate::ctx::fnv(&[self.a.hash(), self.b.hash()])
    }
    pub fn desc(&self) -> String {
        format!("{} content={:?} distort={:?}", self.a.desc(), self.content, self.distort)
    }
    pub fn trivial(&self) -> bool {
        self.a.p == self.b.p
    }
}
