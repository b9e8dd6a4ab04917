//! Uniform access to the library's public entry points.
use crate::ctx;
use crate::gen::Pic;
use av_metrics::video::decode::Decoder;
use av_metrics::video::{ciede, psnr, psnr_hvs, ssim, PlanarMetrics};
use av_metrics::MetricsError;
use std::error::Error;
use v_frame::frame::Frame;
use v_frame::pixel::{ChromaSampling, Pixel};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum M {
    Psnr,
    Apsnr,
    Hvs,
    Ssim,
    Msssim,
    Ciede,
    CiedeScalar,
}
pub const FRAME_METRICS: [M; 6] = [M::Psnr, M::Hvs, M::Ssim, M::Msssim, M::Ciede, M::CiedeScalar];
pub const VIDEO_METRICS: [M; 7] =
    [M::Psnr, M::Apsnr, M::Hvs, M::Ssim, M::Msssim, M::Ciede, M::CiedeScalar];

impl M {
    pub fn name(self) -> &'static str {
        match self {
            M::Psnr => "psnr",
            M::Apsnr => "apsnr",
            M::Hvs => "psnr_hvs",
            M::Ssim => "ssim",
            M::Msssim => "msssim",
            M::Ciede => "ciede2000",
            M::CiedeScalar => "ciede2000_nosimd",
        }
    }
    /// smallest plane side the metric is defined for
    pub fn min_side(self) -> usize {
        match self {
            M::Hvs => 8,
            M::Msssim => 16,
            _ => 1,
        }
    }
    pub fn depth_ok(self, d: usize) -> bool {
        match self {
            M::Ciede | M::CiedeScalar => d == 8 || d == 10 || d == 12,
            _ => (8..=16).contains(&d),
        }
    }
    pub fn defined_for(self, p: &Pic) -> bool {
        let m = self.min_side();
        self.depth_ok(p.depth)
            && p.p.iter().all(|b| (b.w == 0 && b.h == 0) || (b.w >= m && b.h >= m))
    }
    pub fn is_db_err(self) -> bool {
        matches!(self, M::Hvs | M::Ssim | M::Msssim)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// y,u,v,avg for planar metrics, a single value for ciede
    Ok(Vec<f64>),
    Err(String, String),
    Panic(String),
}
impl Out {
    pub fn ok(&self) -> Option<&[f64]> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn kind(&self) -> String {
        match self {
            Out::Ok(_) => "score".into(),
            Out::Err(k, _) => k.clone(),
            Out::Panic(_) => "panic".into(),
        }
    }
}

fn planar(r: Result<PlanarMetrics, Box<dyn Error>>) -> Out {
    match r {
        Ok(p) => Out::Ok(vec![p.y, p.u, p.v, p.avg]),
        Err(e) => err(e),
    }
}
fn single(r: Result<f64, Box<dyn Error>>) -> Out {
    match r {
        Ok(p) => Out::Ok(vec![p]),
        Err(e) => err(e),
    }
}
fn err(e: Box<dyn Error>) -> Out {
    let k = match e.downcast_ref::<MetricsError>() {
        Some(MetricsError::MalformedInput { .. }) => "MalformedInput",
        Some(MetricsError::UnsupportedInput { .. }) => "UnsupportedInput",
        Some(MetricsError::InputMismatch { .. }) => "InputMismatch",
        Some(MetricsError::VideoError { .. }) => "VideoError",
        Some(MetricsError::SendError { .. }) => "SendError",
        Some(MetricsError::ProcessError { .. }) => "ProcessError",
        _ => "OtherError",
    };
    Out::Err(k.into(), ctx::shorten(&e.to_string(), 200))
}

pub fn frame<T: Pixel>(m: M, a: &Frame<T>, b: &Frame<T>, depth: usize, cs: ChromaSampling) -> Out {
    let r = ctx::catch(|| match m {
        M::Psnr | M::Apsnr => planar(psnr::calculate_frame_psnr(a, b, depth, cs)),
        M::Hvs => planar(psnr_hvs::calculate_frame_psnr_hvs(a, b, depth, cs)),
        M::Ssim => planar(ssim::calculate_frame_ssim(a, b, depth, cs)),
        M::Msssim => planar(ssim::calculate_frame_msssim(a, b, depth, cs)),
        M::Ciede => single(ciede::calculate_frame_ciede(a, b, depth, cs)),
        M::CiedeScalar => single(ciede::calculate_frame_ciede_nosimd(a, b, depth, cs)),
    });
    r.unwrap_or_else(Out::Panic)
}
/// Runs a frame metric on two pictures in the plain layout.
pub fn pics(m: M, a: &Pic, b: &Pic) -> Out {
    if a.depth > 8 {
        frame(m, &a.frame::<u16>(), &b.frame::<u16>(), a.depth, a.cs)
    } else {
        frame(m, &a.frame::<u8>(), &b.frame::<u8>(), a.depth, a.cs)
    }
}

pub fn video_raw<D: Decoder, F: Fn(usize) + Send>(
    m: M,
    d1: &mut D,
    d2: &mut D,
    limit: Option<usize>,
    cb: F,
) -> Out {
    match m {
        M::Psnr => planar(psnr::calculate_video_psnr(d1, d2, limit, cb)),
        M::Apsnr => planar(psnr::calculate_video_apsnr(d1, d2, limit, cb)),
        M::Hvs => planar(psnr_hvs::calculate_video_psnr_hvs(d1, d2, limit, cb)),
        M::Ssim => planar(ssim::calculate_video_ssim(d1, d2, limit, cb)),
        M::Msssim => planar(ssim::calculate_video_msssim(d1, d2, limit, cb)),
        M::Ciede => single(ciede::calculate_video_ciede(d1, d2, limit, cb)),
        M::CiedeScalar => single(ciede::calculate_video_ciede_nosimd(d1, d2, limit, cb)),
    }
}
pub fn video<D: Decoder, F: Fn(usize) + Send>(
    m: M,
    d1: &mut D,
    d2: &mut D,
    limit: Option<usize>,
    cb: F,
) -> Out {
    ctx::catch(|| video_raw(m, d1, d2, limit, cb)).unwrap_or_else(Out::Panic)
}

/// |a-b| within absolute `t`, infinities equal.
pub fn near(a: f64, b: f64, t: f64) -> bool {
    (a == b) || (a - b).abs() <= t
}
/// Two dB scores of the -10*log10(err) kind, compared as linear errors.
pub fn near_err(a: f64, b: f64, abs: f64, rel: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return false;
    }
    let (x, y) = (lin(a), lin(b));
    (x - y).abs() <= abs + rel * x.max(y)
}
pub fn lin(db: f64) -> f64 {
    10f64.powf(-db / 10.0)
}
/// Same-input agreement of two results of one metric, tolerant only to float rounding.
pub fn agree(m: M, a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|(p, q)| match m {
                    M::Ssim | M::Msssim => near_err(*p, *q, 1e-10, 1e-8),
                    M::Hvs => near_err(*p, *q, 1e-15, 1e-8),
                    M::Ciede | M::CiedeScalar => near(*p, *q, 1e-3),
                    _ => near(*p, *q, 1e-8),
                })
        }
        (Out::Err(k, _), Out::Err(l, _)) => k == l,
        _ => false,
    }
}
