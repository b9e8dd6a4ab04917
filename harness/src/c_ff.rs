//! The FFmpeg decoder on coded video: files are made with the encoders of the installed FFmpeg, and
//! what the decoder delivers is compared with a plain send/receive loop over the same library.
#![cfg(feature = "ffmpeg")]
use crate::c_dec::{after_siting, diff, read_all};
use crate::ctx::{self, Rng};
use crate::gen::*;
use av_metrics::video::decode::Decoder;
use av_metrics::video::ChromaSamplePosition;
use av_metrics_decoders::FfmpegDecoder;
use ffmpeg_the_third::ffi::*;
use serde_json::{json, Value};
use std::ffi::CString;
use std::os::raw::c_int;
use std::path::{Path, PathBuf};
use std::ptr;
use std::sync::atomic::{AtomicUsize, Ordering};
use v_frame::pixel::ChromaSampling;

const AGAIN: c_int = -(libc::EAGAIN as c_int);

/// The pixel formats the decoder knows: format, depth, chroma, full range flag.
pub fn pixfmt(depth: usize, cs: ChromaSampling, full: bool) -> AVPixelFormat {
    use AVPixelFormat::*;
    match (depth, cs, full) {
        (8, Cs420, false) => AV_PIX_FMT_YUV420P,
        (8, Cs422, false) => AV_PIX_FMT_YUV422P,
        (8, Cs444, false) => AV_PIX_FMT_YUV444P,
        (8, Cs420, true) => AV_PIX_FMT_YUVJ420P,
        (8, Cs422, true) => AV_PIX_FMT_YUVJ422P,
        (8, Cs444, true) => AV_PIX_FMT_YUVJ444P,
        (10, Cs420, _) => AV_PIX_FMT_YUV420P10LE,
        (10, Cs422, _) => AV_PIX_FMT_YUV422P10LE,
        (10, Cs444, _) => AV_PIX_FMT_YUV444P10LE,
        (12, Cs420, _) => AV_PIX_FMT_YUV420P12LE,
        (12, Cs422, _) => AV_PIX_FMT_YUV422P12LE,
        (12, Cs444, _) => AV_PIX_FMT_YUV444P12LE,
        _ => AV_PIX_FMT_NONE,
    }
}
fn of_pixfmt(f: c_int) -> Option<(usize, ChromaSampling)> {
    for d in [8, 10, 12] {
        for cs in [Cs420, Cs422, Cs444] {
            for full in [false, true] {
                if pixfmt(d, cs, full) as c_int == f {
                    return Some((d, cs));
                }
            }
        }
    }
    None
}

/// One way of making a file.
#[derive(Clone, Copy, Debug)]
pub struct Kind {
    pub codec: &'static str,
    pub ext: &'static str,
    pub opts: &'static [(&'static str, &'static str)],
    pub depths: &'static [usize],
    pub cs: &'static [ChromaSampling],
    pub full: bool,
    pub bframes: bool,
    /// decoding gives back the encoded samples
    pub lossless: bool,
    /// smallest side and divisor of the sides
    pub min: usize,
    pub even: bool,
}
const ALL3: &[ChromaSampling] = &[Cs420, Cs422, Cs444];
const ONLY420: &[ChromaSampling] = &[Cs420];
const X264L: &[(&str, &str)] = &[("qp", "0"), ("preset", "ultrafast"), ("x264-params", "bframes=3:b-adapt=0:threads=1:log-level=none:keyint=8")];
const X264Y: &[(&str, &str)] = &[("qp", "0"), ("preset", "ultrafast"), ("x264-params", "bframes=4:b-adapt=0:b-pyramid=normal:ref=3:open-gop=1:threads=1:log-level=none:keyint=6:min-keyint=1")];
const X264Q: &[(&str, &str)] = &[("qp", "30"), ("preset", "veryfast"), ("x264-params", "bframes=2:b-adapt=0:threads=1:log-level=none:intra-refresh=1")];
const X264I: &[(&str, &str)] = &[("qp", "20"), ("preset", "veryfast"), ("x264-params", "interlaced=1:bframes=2:b-adapt=0:threads=1:log-level=none")];
const X265L: &[(&str, &str)] = &[("preset", "ultrafast"), ("x265-params", "lossless=1:bframes=3:b-adapt=0:log-level=none:pools=none:frame-threads=1:keyint=8")];
const VPXL: &[(&str, &str)] = &[("lossless", "1"), ("deadline", "realtime"), ("cpu-used", "8"), ("auto-alt-ref", "1"), ("lag-in-frames", "6"), ("threads", "1")];
const VP8: &[(&str, &str)] = &[("deadline", "good"), ("cpu-used", "4"), ("auto-alt-ref", "1"), ("lag-in-frames", "8"), ("crf", "20"), ("b", "800k"), ("arnr-maxframes", "3"), ("arnr-strength", "3")];
const AOM: &[(&str, &str)] = &[("usage", "realtime"), ("cpu-used", "8"), ("crf", "20"), ("b", "0"), ("threads", "1"), ("lag-in-frames", "0")];
const SVT: &[(&str, &str)] = &[("preset", "12"), ("crf", "30"), ("svtav1-params", "lp=1:hierarchical-levels=2:lookahead=0")];
const KINDS: &[Kind] = &[
    Kind { codec: "libx264", ext: "mkv", opts: X264L, depths: &[8, 10], cs: ALL3, full: false, bframes: true, lossless: true, min: 16, even: true },
    Kind { codec: "libx264", ext: "mp4", opts: X264Y, depths: &[8, 10], cs: ALL3, full: false, bframes: true, lossless: true, min: 16, even: true },
    Kind { codec: "libx264", ext: "ts", opts: X264Y, depths: &[8], cs: ALL3, full: false, bframes: true, lossless: true, min: 16, even: true },
    Kind { codec: "libx264", ext: "h264", opts: X264Y, depths: &[8, 10], cs: ALL3, full: false, bframes: true, lossless: true, min: 16, even: true },
    Kind { codec: "libx264", ext: "avi", opts: X264Q, depths: &[8], cs: ALL3, full: false, bframes: true, lossless: false, min: 16, even: true },
    Kind { codec: "libx264", ext: "mkv", opts: X264I, depths: &[8], cs: ONLY420, full: false, bframes: true, lossless: false, min: 32, even: true },
    Kind { codec: "libx265", ext: "mkv", opts: X265L, depths: &[8, 10, 12], cs: ALL3, full: false, bframes: true, lossless: true, min: 64, even: true },
    Kind { codec: "libx265", ext: "hevc", opts: X265L, depths: &[8], cs: ALL3, full: false, bframes: true, lossless: true, min: 64, even: true },
    Kind { codec: "libvpx-vp9", ext: "webm", opts: VPXL, depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: true, min: 8, even: false },
    Kind { codec: "libvpx-vp9", ext: "ivf", opts: VPXL, depths: &[8], cs: ALL3, full: false, bframes: false, lossless: true, min: 8, even: false },
    Kind { codec: "libvpx", ext: "webm", opts: VP8, depths: &[8], cs: ONLY420, full: false, bframes: false, lossless: false, min: 16, even: false },
    Kind { codec: "mpeg4", ext: "avi", opts: &[("qscale", "3")], depths: &[8], cs: ONLY420, full: false, bframes: true, lossless: false, min: 16, even: true },
    Kind { codec: "mpeg4", ext: "mp4", opts: &[("qscale", "3")], depths: &[8], cs: ONLY420, full: false, bframes: true, lossless: false, min: 16, even: true },
    Kind { codec: "mpeg2video", ext: "mpg", opts: &[], depths: &[8], cs: &[Cs420, Cs422], full: false, bframes: true, lossless: false, min: 32, even: true },
    Kind { codec: "mpeg2video", ext: "m2v", opts: &[], depths: &[8], cs: &[Cs420, Cs422], full: false, bframes: true, lossless: false, min: 32, even: true },
    Kind { codec: "mpeg1video", ext: "mpg", opts: &[], depths: &[8], cs: ONLY420, full: false, bframes: true, lossless: false, min: 32, even: true },
    Kind { codec: "ffv1", ext: "mkv", opts: &[], depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: true, min: 1, even: false },
    Kind { codec: "ffv1", ext: "nut", opts: &[], depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: true, min: 1, even: false },
    Kind { codec: "ffvhuff", ext: "avi", opts: &[], depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: true, min: 4, even: true },
    Kind { codec: "huffyuv", ext: "avi", opts: &[], depths: &[8], cs: &[Cs422], full: false, bframes: false, lossless: true, min: 4, even: true },
    Kind { codec: "mjpeg", ext: "avi", opts: &[("qscale", "2")], depths: &[8], cs: ALL3, full: true, bframes: false, lossless: false, min: 8, even: false },
    Kind { codec: "mjpeg", ext: "mjpeg", opts: &[("qscale", "2")], depths: &[8], cs: ALL3, full: true, bframes: false, lossless: false, min: 8, even: false },
    Kind { codec: "rawvideo", ext: "nut", opts: &[], depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: true, min: 1, even: false },
    Kind { codec: "libaom-av1", ext: "mkv", opts: AOM, depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: false, min: 16, even: false },
    Kind { codec: "libaom-av1", ext: "ivf", opts: AOM, depths: &[8, 10], cs: ONLY420, full: false, bframes: false, lossless: false, min: 16, even: false },
    Kind { codec: "libsvtav1", ext: "mp4", opts: SVT, depths: &[8, 10], cs: ONLY420, full: false, bframes: false, lossless: false, min: 64, even: true },
    Kind { codec: "librav1e", ext: "ivf", opts: &[("speed", "10"), ("qp", "80"), ("rav1e-params", "low_latency=false")], depths: &[8, 10], cs: ALL3, full: false, bframes: false, lossless: false, min: 16, even: false },
    Kind { codec: "libtheora", ext: "ogg", opts: &[("qscale", "9")], depths: &[8], cs: ALL3, full: false, bframes: false, lossless: false, min: 16, even: false },
    Kind { codec: "libtheora", ext: "mkv", opts: &[("qscale", "9")], depths: &[8], cs: ALL3, full: false, bframes: false, lossless: false, min: 16, even: false },
    Kind { codec: "libxvid", ext: "avi", opts: &[("qscale", "3")], depths: &[8], cs: ONLY420, full: false, bframes: true, lossless: false, min: 16, even: true },
    Kind { codec: "prores_ks", ext: "mov", opts: &[], depths: &[10], cs: &[Cs422, Cs444], full: false, bframes: false, lossless: false, min: 16, even: true },
    Kind { codec: "libopenjpeg", ext: "mkv", opts: &[], depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: false, min: 32, even: true },
    Kind { codec: "jpeg2000", ext: "mov", opts: &[], depths: &[8], cs: ALL3, full: false, bframes: false, lossless: false, min: 32, even: true },
    Kind { codec: "v210", ext: "avi", opts: &[], depths: &[10], cs: &[Cs422], full: false, bframes: false, lossless: true, min: 16, even: true },
    Kind { codec: "magicyuv", ext: "avi", opts: &[], depths: &[8], cs: ALL3, full: false, bframes: false, lossless: true, min: 16, even: true },
    Kind { codec: "vc2", ext: "mov", opts: &[], depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: false, min: 32, even: true },
    Kind { codec: "snow", ext: "avi", opts: &[("qscale", "2")], depths: &[8], cs: &[Cs420, Cs444], full: false, bframes: false, lossless: false, min: 32, even: true },
    Kind { codec: "wmv2", ext: "asf", opts: &[("qscale", "3")], depths: &[8], cs: ONLY420, full: false, bframes: false, lossless: false, min: 32, even: true },
    Kind { codec: "msmpeg4", ext: "avi", opts: &[("qscale", "3")], depths: &[8], cs: ONLY420, full: false, bframes: false, lossless: false, min: 32, even: true },
    Kind { codec: "flv", ext: "flv", opts: &[("qscale", "3")], depths: &[8], cs: ONLY420, full: false, bframes: false, lossless: false, min: 16, even: true },
    Kind { codec: "rawvideo", ext: "y4m", opts: &[], depths: &[8, 10, 12], cs: ALL3, full: false, bframes: false, lossless: true, min: 1, even: false },
    Kind { codec: "utvideo", ext: "mkv", opts: &[], depths: &[8], cs: ALL3, full: false, bframes: false, lossless: true, min: 4, even: true },
];

struct Av {
    oc: *mut AVFormatContext,
    cc: *mut AVCodecContext,
    fr: *mut AVFrame,
    pk: *mut AVPacket,
    au: *mut AVCodecContext,
}
impl Drop for Av {
    fn drop(&mut self) {
        unsafe {
            if !self.oc.is_null() {
                if !(*self.oc).pb.is_null() {
                    avio_closep(&mut (*self.oc).pb);
                }
                avformat_free_context(self.oc);
            }
            avcodec_free_context(&mut self.cc);
            avcodec_free_context(&mut self.au);
            av_frame_free(&mut self.fr);
            av_packet_free(&mut self.pk);
        }
    }
}
pub fn quiet() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        av_log_set_level(AV_LOG_QUIET);
    });
}
/// Writes `frames` coded as `k` to `path`. With `audio`, a sound track comes first in the file.
/// Err when this FFmpeg cannot make such a file.
///
/// With `merge` > 1 that many coded pictures go into one packet of the file, where the coding allows it.
pub fn encode(path: &Path, k: &Kind, frames: &[Pic], gop: i32, bf: i32, audio: bool, merge: usize) -> Result<(), String> {
    quiet();
    let (p0, n) = (&frames[0], frames.len());
    let cpath = CString::new(path.to_str().unwrap_or_default()).map_err(|e| e.to_string())?;
    unsafe {
        let mut a = Av { oc: ptr::null_mut(), cc: ptr::null_mut(), fr: av_frame_alloc(), pk: av_packet_alloc(), au: ptr::null_mut() };
        let fmt = match k.ext {
            "ts" => Some("mpegts"),
            "m2v" => Some("mpeg2video"),
            _ => None,
        };
        let cf = fmt.map(|f| CString::new(f).unwrap());
        if avformat_alloc_output_context2(&mut a.oc, ptr::null(), cf.as_ref().map_or(ptr::null(), |c| c.as_ptr()), cpath.as_ptr()) < 0 {
            return Err("container".into());
        }
        let name = CString::new(k.codec).unwrap();
        let codec = avcodec_find_encoder_by_name(name.as_ptr());
        if codec.is_null() {
            return Err("no encoder".into());
        }
        let global = (*(*a.oc).oformat).flags & AVFMT_GLOBALHEADER as c_int != 0;
        // sound first, so that the picture is not stream 0
        let mut ast: *mut AVStream = ptr::null_mut();
        if audio {
            let an = CString::new(if k.ext == "mp4" || k.ext == "ts" { "mp2" } else if k.ext == "webm" { "libvorbis" } else { "pcm_s16le" }).unwrap();
            let ac = avcodec_find_encoder_by_name(an.as_ptr());
            if ac.is_null() {
                return Err("no sound encoder".into());
            }
            a.au = avcodec_alloc_context3(ac);
            (*a.au).sample_rate = 44100;
            (*a.au).sample_fmt = *(*ac).sample_fmts;
            av_channel_layout_default(&mut (*a.au).ch_layout, 1);
            (*a.au).time_base = AVRational { num: 1, den: 44100 };
            if global {
                (*a.au).flags |= AV_CODEC_FLAG_GLOBAL_HEADER as c_int;
            }
            if avcodec_open2(a.au, ac, ptr::null_mut()) < 0 {
                return Err("sound encoder".into());
            }
            ast = avformat_new_stream(a.oc, ptr::null());
            (*ast).time_base = (*a.au).time_base;
            avcodec_parameters_from_context((*ast).codecpar, a.au);
        }
        a.cc = avcodec_alloc_context3(codec);
        let c = &mut *a.cc;
        c.width = p0.w as c_int;
        c.height = p0.h as c_int;
        c.pix_fmt = pixfmt(p0.depth, p0.cs, k.full);
        if k.full {
            c.color_range = AVColorRange::AVCOL_RANGE_JPEG;
        }
        c.time_base = AVRational { num: 1, den: 25 };
        c.framerate = AVRational { num: 25, den: 1 };
        c.gop_size = gop;
        c.thread_count = 1;
        c.strict_std_compliance = -2;
        if k.bframes {
            c.max_b_frames = bf;
        }
        if global {
            c.flags |= AV_CODEC_FLAG_GLOBAL_HEADER as c_int;
        }
        let mut d: *mut AVDictionary = ptr::null_mut();
        for (x, y) in k.opts {
            let (x, y) = (CString::new(*x).unwrap(), CString::new(*y).unwrap());
            av_dict_set(&mut d, x.as_ptr(), y.as_ptr(), 0);
        }
        let r = avcodec_open2(a.cc, codec, &mut d);
        av_dict_free(&mut d);
        if r < 0 {
            return Err(format!("encoder refuses {r}"));
        }
        let st = avformat_new_stream(a.oc, ptr::null());
        (*st).time_base = (*a.cc).time_base;
        (*st).avg_frame_rate = (*a.cc).framerate;
        avcodec_parameters_from_context((*st).codecpar, a.cc);
        if avio_open(&mut (*a.oc).pb, cpath.as_ptr(), AVIO_FLAG_WRITE as c_int) < 0 {
            return Err("file".into());
        }
        if avformat_write_header(a.oc, ptr::null_mut()) < 0 {
            return Err("header".into());
        }
        let mut held: Vec<(Vec<u8>, i64, i64, c_int)> = vec![];
        let mut drain = |ctx: *mut AVCodecContext, st: *mut AVStream, pk: *mut AVPacket, oc: *mut AVFormatContext, last: bool| -> Result<(), String> {
            let video = (*ctx).codec_type == AVMediaType::AVMEDIA_TYPE_VIDEO;
            let write = |pk: *mut AVPacket| -> Result<(), String> {
                (*pk).stream_index = (*st).index;
                if (*pk).duration == 0 && video {
                    (*pk).duration = 1;
                }
                av_packet_rescale_ts(pk, (*ctx).time_base, (*st).time_base);
                if av_interleaved_write_frame(oc, pk) < 0 {
                    return Err("muxing".into());
                }
                Ok(())
            };
            loop {
                let r = avcodec_receive_packet(ctx, pk);
                let over = r == AGAIN || r == AVERROR_EOF;
                if r < 0 && !over {
                    return Err(format!("encoding {r}"));
                }
                if !video || merge < 2 {
                    if over {
                        return Ok(());
                    }
                    write(pk)?;
                    continue;
                }
                if !over {
                    let d = std::slice::from_raw_parts((*pk).data, (*pk).size as usize).to_vec();
                    held.push((d, (*pk).pts, (*pk).dts, (*pk).flags));
                    av_packet_unref(pk);
                }
                if held.len() >= merge || (over && last && !held.is_empty()) {
                    let mut data = vec![];
                    let marked = |d: &[u8]| d.last().is_some_and(|b| b & 0xe0 == 0xc0);
                    if k.codec == "libvpx-vp9" {
                        if held.len() > 1 {
                            if held.iter().any(|h| marked(&h.0)) {
                                return Err("already a superframe".into());
                            }
                            // frames, then the index of the superframe
                            let mut ix = vec![0xc0 | (3 << 3) | (held.len() as u8 - 1)];
                            for h in &held {
                                data.extend(&h.0);
                                ix.extend((h.0.len() as u32).to_le_bytes());
                            }
                            ix.push(ix[0]);
                            data.extend(ix);
                        } else {
                            data.extend(&held[0].0);
                        }
                    } else {
                        for h in &held {
                            data.extend(&h.0);
                        }
                    }
                    if av_new_packet(pk, data.len() as c_int) < 0 {
                        return Err("packet".into());
                    }
                    ptr::copy_nonoverlapping(data.as_ptr(), (*pk).data, data.len());
                    (*pk).pts = held[0].1;
                    (*pk).dts = held[0].2;
                    (*pk).flags = held[0].3;
                    held.clear();
                    write(pk)?;
                }
                if over {
                    return Ok(());
                }
            }
        };
        let mut apts = 0i64;
        for i in 0..=n {
            if i == n {
                avcodec_send_frame(a.cc, ptr::null());
            } else {
                let f = &mut *a.fr;
                av_frame_unref(a.fr);
                f.format = (*a.cc).pix_fmt as c_int;
                f.width = p0.w as c_int;
                f.height = p0.h as c_int;
                if av_frame_get_buffer(a.fr, 0) < 0 {
                    return Err("frame".into());
                }
                for q in 0..3 {
                    let b = &frames[i].p[q];
                    for y in 0..b.h {
                        let row = f.data[q].offset(f.linesize[q] as isize * y as isize);
                        for x in 0..b.w {
                            let v = b.d[y * b.w + x];
                            if p0.depth > 8 {
                                *(row as *mut u16).add(x) = v as u16;
                            } else {
                                *row.add(x) = v as u8;
                            }
                        }
                    }
                }
                f.pts = i as i64;
                let r = avcodec_send_frame(a.cc, a.fr);
                if r < 0 {
                    return Err(format!("send frame {r}"));
                }
            }
            drain(a.cc, st, a.pk, a.oc, i == n)?;
            if audio && i < n {
                // about one frame's worth of silence, in pieces the encoder takes
                let want = (i as i64 + 1) * 1764;
                let piece = if (*a.au).frame_size > 0 { (*a.au).frame_size } else { 882 };
                while apts < want {
                    av_frame_unref(a.fr);
                    let f = &mut *a.fr;
                    f.format = (*a.au).sample_fmt as c_int;
                    f.nb_samples = piece;
                    f.sample_rate = 44100;
                    av_channel_layout_default(&mut f.ch_layout, 1);
                    if av_frame_get_buffer(a.fr, 0) < 0 {
                        return Err("sound frame".into());
                    }
                    ptr::write_bytes(f.data[0], 0, f.linesize[0] as usize);
                    f.pts = apts;
                    apts += piece as i64;
                    if avcodec_send_frame(a.au, a.fr) < 0 {
                        return Err("sound".into());
                    }
                    drain(a.au, ast, a.pk, a.oc, i == n)?;
                }
            } else if audio {
                avcodec_send_frame(a.au, ptr::null());
                drain(a.au, ast, a.pk, a.oc, i == n)?;
            }
        }
        if av_write_trailer(a.oc) < 0 {
            return Err("trailer".into());
        }
    }
    Ok(())
}

pub struct Reference {
    pub frames: Vec<Pic>,
    /// width, height, pixel format of every frame; what the container announces
    pub shapes: Vec<(usize, usize, c_int)>,
    pub announced: (usize, usize, c_int),
    pub rate: (i64, i64),
    pub streams: usize,
    pub video_stream: usize,
    /// frames still inside the codec when the last packet had been given to it
    pub late: usize,
    pub most_per_packet: usize,
    pub packets: usize,
    pub undecodable: usize,
    /// most failures to read in a row
    pub read_errors: usize,
}
unsafe extern "C" fn filled_buffer(c: *mut AVCodecContext, f: *mut AVFrame, flags: c_int) -> c_int {
    let r = avcodec_default_get_buffer2(c, f, flags);
    if r >= 0 {
        for b in (*f).buf {
            if !b.is_null() {
                ptr::write_bytes((*b).data, (*c).opaque as usize as u8, (*b).size);
            }
        }
    }
    r
}
/// Every frame the codec produces from every packet of the best video stream. The buffers given to
/// the codec are filled with `fill`, which shows where it leaves samples undefined.
pub fn reference(path: &Path, fill: u8) -> Result<Reference, String> {
    quiet();
    let cpath = CString::new(path.to_str().unwrap_or_default()).map_err(|e| e.to_string())?;
    unsafe {
        let mut ic: *mut AVFormatContext = ptr::null_mut();
        if avformat_open_input(&mut ic, cpath.as_ptr(), ptr::null(), ptr::null_mut()) < 0 {
            return Err("open".into());
        }
        let mut a = Av { oc: ptr::null_mut(), cc: ptr::null_mut(), fr: av_frame_alloc(), pk: av_packet_alloc(), au: ptr::null_mut() };
        let r = (|| -> Result<Reference, String> {
            if avformat_find_stream_info(ic, ptr::null_mut()) < 0 {
                return Err("stream info".into());
            }
            let vi = av_find_best_stream(ic, AVMediaType::AVMEDIA_TYPE_VIDEO, -1, -1, ptr::null_mut(), 0);
            if vi < 0 {
                return Err("no video".into());
            }
            let st = *(*ic).streams.offset(vi as isize);
            let dec = avcodec_find_decoder((*(*st).codecpar).codec_id);
            if dec.is_null() {
                return Err("no decoder".into());
            }
            a.cc = avcodec_alloc_context3(dec);
            avcodec_parameters_to_context(a.cc, (*st).codecpar);
            (*a.cc).opaque = fill as usize as *mut _;
            (*a.cc).get_buffer2 = Some(filled_buffer);
            if avcodec_open2(a.cc, dec, ptr::null_mut()) < 0 {
                return Err("decoder".into());
            }
            let mut o = Reference {
                frames: vec![],
                shapes: vec![],
                announced: ((*a.cc).width as usize, (*a.cc).height as usize, (*a.cc).pix_fmt as c_int),
                rate: ((*st).avg_frame_rate.num as i64, (*st).avg_frame_rate.den as i64),
                streams: (*ic).nb_streams as usize,
                video_stream: vi as usize,
                late: 0,
                most_per_packet: 0,
                packets: 0,
                undecodable: 0,
                read_errors: 0,
            };
            let mut errors = 0;
            let mut ended = false;
            while !ended {
                let r = av_read_frame(ic, a.pk);
                if r == AVERROR_EOF {
                    ended = true;
                    avcodec_send_packet(a.cc, ptr::null());
                } else if r < 0 {
                    errors += 1;
                    o.read_errors = o.read_errors.max(errors);
                    if errors < 100 {
                        continue;
                    }
                    ended = true;
                    avcodec_send_packet(a.cc, ptr::null());
                } else {
                    errors = 0;
                    if (*a.pk).stream_index != vi {
                        av_packet_unref(a.pk);
                        continue;
                    }
                    o.packets += 1;
                    avcodec_send_packet(a.cc, a.pk);
                    av_packet_unref(a.pk);
                }
                let mut per = 0;
                let mut failed = 0;
                loop {
                    let got = avcodec_receive_frame(a.cc, a.fr);
                    if got == AGAIN || got == AVERROR_EOF {
                        break;
                    }
                    if got < 0 {
                        // this one cannot be decoded, others may follow
                        o.undecodable += 1;
                        failed += 1;
                        if failed > 10000 {
                            return Err("decoding fails for ever".into());
                        }
                        continue;
                    }
                    per += 1;
                    let f = &*a.fr;
                    o.shapes.push((f.width as usize, f.height as usize, f.format));
                    let Some((depth, cs)) = of_pixfmt(f.format) else {
                        o.frames.push(Pic::blank(1, 1, 8, Cs420));
                        continue;
                    };
                    let mut p = Pic::blank(f.width as usize, f.height as usize, depth, cs);
                    for q in 0..3 {
                        let b = &mut p.p[q];
                        for y in 0..b.h {
                            let row = f.data[q].offset(f.linesize[q] as isize * y as isize);
                            for x in 0..b.w {
                                b.d[y * b.w + x] = if depth > 8 { *(row as *const u16).add(x) } else { *row.add(x) as u16 };
                            }
                        }
                    }
                    o.frames.push(p);
                }
                if ended {
                    o.late = per;
                } else {
                    o.most_per_packet = o.most_per_packet.max(per);
                }
            }
            Ok(o)
        })();
        avformat_close_input(&mut ic);
        r
    }
}

pub fn moving(r: &mut Rng, w: usize, h: usize, depth: usize, cs: ChromaSampling, n: usize) -> Vec<Pic> {
    // every frame different from all others, but related to its neighbours
    let base = Pic::gen(r, w, h, depth, cs, *r.clone().pick(&[Content::Waves, Content::Blocks, Content::Gradient]));
    (0..n)
        .map(|i| {
            let mut p = base.clone();
            for q in 0..3 {
                let b = &mut p.p[q];
                for y in 0..b.h {
                    let s = (i * (q + 1) + y / 7) % b.w.max(1);
                    b.d[y * b.w..(y + 1) * b.w].rotate_left(s);
                }
            }
            let d = Distort::SmallNoise;
            let mut p = p.distorted(r, d);
            // a number in the corner tells the frames apart
            let top = (1u16 << depth) - 1;
            p.p[0].d[0] = (i as u16 * 37) & top;
            p
        })
        .collect()
}

fn damage(r: &mut Rng, s: &mut Vec<u8>) -> &'static str {
    let n = s.len();
    match r.below(6) {
        0 => {
            s.truncate(r.below(n));
            "truncated"
        }
        1 => {
            for _ in 0..r.range(1, 12) {
                let p = r.below(n);
                s[p] ^= 1 << r.below(8);
            }
            "bits flipped"
        }
        2 => {
            // past the headers
            let from = r.range(n / 4, n - 1);
            for _ in 0..r.range(1, 60) {
                let p = r.range(from, n - 1);
                s[p] = r.below(256) as u8;
            }
            "bytes replaced"
        }
        3 => {
            let p = r.below(n);
            let d = r.range(1, 300).min(n - p);
            s.drain(p..p + d);
            "bytes lost"
        }
        4 => {
            let p = r.below(n);
            let d = r.range(1, 2000).min(n - p);
            s[p..p + d].fill(0);
            "bytes zeroed"
        }
        _ => {
            let p = r.below(n);
            let x: Vec<u8> = (0..r.range(1, 300)).map(|_| r.below(256) as u8).collect();
            s.splice(p..p, x);
            "bytes inserted"
        }
    }
}

/// What one case is, and the file it is about.
struct Made {
    how: Value,
    ext: &'static str,
    hash: u64,
}
fn plain_file(r: &mut Rng, i: usize, to: &Path) -> Result<Made, String> {
    let k = &KINDS[i % KINDS.len()];
    let (depth, cs) = (*r.pick(k.depths), *r.pick(k.cs));
    let (mut w, mut h) = (k.min.max(16) + r.below(50), k.min.max(16) + r.below(40));
    if k.min < 16 && r.chance(0.3) {
        w = r.range(k.min, 20);
        h = r.range(k.min, 20);
    }
    if k.even {
        w &= !1;
        h &= !1;
    }
    if k.opts.as_ptr() == X264I.as_ptr() {
        h &= !3;
    }
    let n = *r.pick(&[1, 2, 3, 4, 5, 7, 9, 12, 17, 26]);
    let audio = r.chance(0.3) && ["mkv", "mp4", "ts", "avi", "nut", "webm"].contains(&k.ext);
    let merge = if r.chance(0.35) && ["libvpx-vp9", "libaom-av1", "librav1e", "libsvtav1", "mjpeg", "mpeg4", "mpeg2video", "libvpx"].contains(&k.codec) && ["ivf", "webm", "mkv", "avi", "mp4"].contains(&k.ext) { r.range(2, 4) } else { 1 };
    let frames = moving(r, w, h, depth, cs, n);
    let (gop, bf) = (r.range(1, 14) as i32, r.below(4) as i32);
    let how = json!({"case": i, "codec": k.codec, "container": k.ext, "size": [w, h], "depth": depth, "format": cs_name(cs), "frames": n, "gop": gop, "bframes": bf, "sound": audio, "pictures_per_packet": merge});
    encode(to, k, &frames, gop, bf, audio, merge).map_err(|e| format!("{} {} {depth} {}: {e}", k.codec, k.ext, cs_name(cs)))?;
    Ok(Made { how, ext: k.ext, hash: ctx::fnv(&[frames[0].hash(), (i % KINDS.len()) as u64, n as u64, audio as u64, merge as u64]) })
}
fn broken_file(r: &mut Rng, i: usize, to: &Path) -> Result<Made, String> {
    let joined = i % 4 == 0;
    let list: Vec<&'static Kind> = KINDS.iter().filter(|k| !joined || ["h264", "hevc", "m2v", "mjpeg", "ts", "mpg"].contains(&k.ext)).collect();
    let k = list[i / 4 % list.len()];
    let make = |r: &mut Rng, w: usize, h: usize, depth: usize, cs: ChromaSampling| -> Result<Vec<u8>, String> {
        let n = r.range(1, 9);
        let frames = moving(r, w, h, depth, cs, n);
        encode(to, k, &frames, r.range(1, 8) as i32, r.below(4) as i32, false, 1).map_err(|e| format!("{} {} {depth} {}: {e}", k.codec, k.ext, cs_name(cs)))?;
        std::fs::read(to).map_err(|e| e.to_string())
    };
    let (depth, cs) = (*r.pick(k.depths), *r.pick(k.cs));
    let (w, h) = ((k.min.max(16) + r.below(40)) & !3, (k.min.max(16) + r.below(30)) & !3);
    let mut s = make(r, w, h, depth, cs)?;
    let what = if joined {
        let (d2, c2) = if r.chance(0.4) { (*r.pick(k.depths), *r.pick(k.cs)) } else { (depth, cs) };
        let (w2, h2) = if r.chance(0.7) { ((k.min.max(16) + r.below(80)) & !3, (k.min.max(16) + r.below(60)) & !3) } else { (w, h) };
        let t = make(r, w2, h2, d2, c2)?;
        s.extend(t);
        if (w, h, depth, cs) == (w2, h2, d2, c2) { "same joined" } else { "another video joined" }
    } else {
        damage(r, &mut s)
    };
    std::fs::write(to, &s).map_err(|e| e.to_string())?;
    let how = json!({"case": i, "codec": k.codec, "container": k.ext, "size": [w, h], "depth": depth, "format": cs_name(cs), "damage": what, "bytes": s.len()});
    Ok(Made { hash: ctx::fnv(&[ctx::hash_str(&format!("{how}")), s.len() as u64]), how, ext: k.ext })
}

#[derive(Default)]
struct Got {
    counts: std::collections::BTreeMap<String, u64>,
    bad: Option<String>,
}
impl Got {
    fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
}
fn judge(f: &Path, damaged: bool, say: &dyn Fn(&str), o: &mut Got) -> Result<(), String> {
    say("ref");
    let want = reference(f, 0);
    // damaged files: from where on does the codec deliver samples it never wrote?
    let same = match (&want, damaged) {
        (Ok(w), true) => reference(f, 0xff).map_or(0, |a| a.frames.iter().zip(&w.frames).take_while(|(x, y)| x.p.iter().zip(&y.p).all(|(x, y)| x.d == y.d)).count()),
        (Ok(w), false) => w.frames.len(),
        _ => 0,
    };
    say("dec");
    let mut d = match FfmpegDecoder::new(f) {
        Ok(d) => d,
        Err(e) => {
            let known = want.as_ref().is_ok_and(|w| of_pixfmt(w.announced.2).is_some());
            if known && !damaged {
                return Err(format!("not opened: {e}"));
            }
            o.count("outcome:not opened", 1);
            return Ok(());
        }
    };
    let v = d.get_video_details();
    let vertical = v.chroma_sample_position == ChromaSamplePosition::Vertical;
    let (got, ended) = read_all(&mut d, false, 500);
    if !ended {
        return Err("500 frames without an end".into());
    }
    for _ in 0..3 {
        if !read_all(&mut d, false, 2).0.is_empty() {
            return Err("frames after the end".into());
        }
    }
    let Ok(w) = want else {
        o.count("outcome:not decodable here", 1);
        return Ok(());
    };
    let Some((depth, cs)) = of_pixfmt(w.announced.2) else { return Err(format!("opened, the pixel format is {}", w.announced.2)) };
    if (v.width, v.height, v.bit_depth, v.chroma_sampling) != (w.announced.0, w.announced.1, depth, cs) || d.get_bit_depth() != depth {
        return Err(format!("details {v:?}, of the file {:?}", w.announced));
    }
    if (v.time_base.den as i64, v.time_base.num as i64) != w.rate && w.rate.0 > 0 && w.rate.1 > 0 {
        return Err(format!("time base {:?}, frame rate of the file {:?}", v.time_base, w.rate));
    }
    // up to a frame of another layout, whatever its size
    let ok = w.shapes.iter().take_while(|s| of_pixfmt(s.2) == Some((depth, cs))).count();
    for j in 0..got.len().min(ok) {
        let g = (got[j][0].w, got[j][0].h);
        if g != (w.shapes[j].0, w.shapes[j].1) {
            return Err(format!("frame {j} is {g:?}, the codec gives {:?}", w.shapes[j]));
        }
        if j >= same {
            o.count("frames_the_codec_leaves_undefined", 1);
            continue;
        }
        o.count("frames_compared", 1);
        if let Some(e) = diff(&got[j], &after_siting(&w.frames[j], vertical)) {
            let other = w.frames.iter().position(|q| diff(&got[j], &after_siting(q, vertical)).is_none());
            return Err(format!("frame {j}: {e}; it equals frame {other:?}"));
        }
    }
    if w.read_errors > 10 {
        // how long to go on when reading fails is the decoder's own choice
        o.count("outcome:unreadable file", 1);
        return Ok(());
    }
    if got.len() != ok {
        return Err(format!("{} frames delivered, the codec gives {ok} of the announced format, {} in all, from {} packets", got.len(), w.frames.len(), w.packets));
    }
    o.count("frames_kept_back_until_the_end", w.late as u64);
    for (n, c) in [
        ("files_with_decoder_delay", w.late > 0),
        ("files_with_picture_not_first", w.video_stream > 0),
        ("files_with_several_frames_per_packet", w.most_per_packet > 1),
        ("files_with_frames_that_cannot_be_decoded", w.undecodable > 0),
        ("files_with_packets_without_a_frame", w.packets > w.frames.len()),
        ("files_with_frames_of_another_size", w.shapes.iter().any(|s| (s.0, s.1) != (w.announced.0, w.announced.1))),
        ("files_with_frames_of_another_format", ok < w.frames.len()),
        ("files_with_frames_the_codec_leaves_undefined", same < w.frames.len()),
    ] {
        if c {
            o.count(n, 1);
        }
    }
    o.count(if ok == 0 { "outcome:opened, no frame" } else { "outcome:read" }, 1);
    Ok(())
}

// The encoders, demuxers and decoders themselves may break (on damaged input above all), so they run
// in child processes which note what they are about to do.
fn arg(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| panic!("HARNESS: {k}"))
}
/// Child: makes the files of the cases from AVH_FROM to AVH_TO in AVH_DIR.
pub fn make_child() -> ! {
    let (dir, mode) = (PathBuf::from(arg("AVH_DIR")), arg("AVH_MODE"));
    let (from, to): (usize, usize) = (arg("AVH_FROM").parse().unwrap(), arg("AVH_TO").parse().unwrap());
    for i in from..to {
        note(&dir, json!({"i": i, "stage": "make"}));
        let mut r = ctx::rng(if mode == "27" { 27 } else { 28 } * 1_000_003 + i as u64);
        // the container is chosen by the extension, so the file gets its name first
        let named = |e: &str| dir.join(format!("{i}.{e}"));
        let ext = if mode == "27" { KINDS[i % KINDS.len()].ext } else { broken_ext(i) };
        let m = if mode == "27" { plain_file(&mut r, i, &named(ext)) } else { broken_file(&mut r, i, &named(ext)) };
        let line = match m {
            Ok(m) => json!({"file": named(m.ext).to_str(), "how": m.how, "hash": m.hash}),
            Err(e) => json!({"refused": e}),
        };
        std::fs::write(dir.join(format!("{i}.json")), line.to_string()).expect("HARNESS: write");
    }
    std::process::exit(0)
}
fn broken_ext(i: usize) -> &'static str {
    let joined = i % 4 == 0;
    let list: Vec<&'static Kind> = KINDS.iter().filter(|k| !joined || ["h264", "hevc", "m2v", "mjpeg", "ts", "mpg"].contains(&k.ext)).collect();
    list[i / 4 % list.len()].ext
}
fn note(dir: &Path, v: Value) {
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(dir.join("journal")).expect("HARNESS: journal");
    f.write_all(format!("{v}\n").as_bytes()).expect("HARNESS: journal");
}
/// Child: reads the files of the cases and judges them.
pub fn check_child() -> ! {
    let (dir, mode) = (PathBuf::from(arg("AVH_DIR")), arg("AVH_MODE"));
    let (from, to): (usize, usize) = (arg("AVH_FROM").parse().unwrap(), arg("AVH_TO").parse().unwrap());
    for i in from..to {
        let Some(v) = std::fs::read_to_string(dir.join(format!("{i}.json"))).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else { continue };
        let Some(file) = v["file"].as_str() else { continue };
        let mut o = Got::default();
        let say = |s: &str| note(&dir, json!({"i": i, "stage": s}));
        let r = ctx::catch(|| judge(Path::new(file), mode == "28", &say, &mut o));
        o.bad = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("panic: {p}")),
        };
        note(&dir, json!({"i": i, "stage": "done", "counts": o.counts, "bad": o.bad}));
    }
    std::process::exit(0)
}
/// Child: one file read once, by the reference loop or by the decoder.
pub fn one_child() -> ! {
    let (f, by) = (PathBuf::from(arg("AVH_FILE")), arg("AVH_BY"));
    if by == "reference" {
        let _ = reference(&f, 0);
    } else if by == "fingerprint" {
        // what the codec gives in this process
        let v = reference(&f, 0).map_or(vec![], |w| w.frames.iter().map(Pic::hash).collect::<Vec<_>>());
        std::process::exit((ctx::fnv(&v) % 251) as i32)
    } else if let Ok(mut d) = FfmpegDecoder::new(&f) {
        let _ = ctx::catch(|| read_all(&mut d, false, 500).0.len());
    }
    std::process::exit(0)
}

#[derive(Debug, PartialEq)]
enum End {
    Fine,
    Died(String),
    Stuck,
}
/// Runs a child; it is stuck when it burns processor time without adding to its journal.
fn child(what: &str, env: &[(&str, String)], journal: Option<&Path>) -> End {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("HARNESS: exe");
    let mut c = Command::new(exe);
    c.arg(what).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c.env("SVT_LOG", "0");
    for (k, v) in env {
        c.env(k, v);
    }
    let mut p = c.spawn().expect("HARNESS: spawn");
    let cpu = |pid: u32| -> f64 {
        let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
        let v: Vec<f64> = s.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0.0)).collect();
        (v.get(11).unwrap_or(&0.0) + v.get(12).unwrap_or(&0.0)) / 100.0
    };
    let size = || journal.and_then(|j| std::fs::metadata(j).ok()).map_or(0, |m| m.len());
    let (mut seen, mut at, mut wall) = (size(), 0.0, std::time::Instant::now());
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = p.try_wait() {
            return if s.success() { End::Fine } else { End::Died(s.to_string()) };
        }
        std::thread::sleep(std::time::Duration::from_millis(nap));
        nap = (nap * 2).min(50);
        let now = size();
        if now != seen {
            seen = now;
            at = cpu(p.id());
            wall = std::time::Instant::now();
        }
        // (asleep for ever: no processor time, so the clock decides, generously)
        if cpu(p.id()) - at > 30.0 || wall.elapsed().as_secs() > 240 {
            let _ = p.kill();
            let _ = p.wait();
            return End::Stuck;
        }
    }
}

fn run_files(mode: &str, total: usize) {
    quiet();
    const BATCH: usize = 13;
    let root = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let next = AtomicUsize::new(0);
    let refused = std::sync::Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    let batch = |b: usize| {
        let dir = root.join(format!("ff{mode}-{}-{b}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("HARNESS: folder");
        let (from, to) = (b * BATCH, ((b + 1) * BATCH).min(total));
        let journal = dir.join("journal");
        let last = || -> Option<(usize, String)> {
            let s = std::fs::read_to_string(&journal).ok()?;
            let v: Value = serde_json::from_str(s.lines().last()?).ok()?;
            Some((v["i"].as_u64()? as usize, v["stage"].as_str()?.to_string()))
        };
        let env = |a: usize| vec![("AVH_DIR", dir.display().to_string()), ("AVH_MODE", mode.to_string()), ("AVH_FROM", a.to_string()), ("AVH_TO", to.to_string())];
        let mut a = from;
        while a < to {
            match child("FF-make", &env(a), Some(&journal)) {
                End::Fine => break,
                _ => {
                    // an encoder broke: that case is left out
                    let i = last().map_or(a, |l| l.0);
                    let _ = std::fs::write(dir.join(format!("{i}.json")), json!({"refused": "the encoder itself broke"}).to_string());
                    a = i + 1;
                }
            }
        }
        let made = |i: usize| -> Value { std::fs::read_to_string(dir.join(format!("{i}.json"))).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null) };
        let _ = std::fs::remove_file(&journal);
        let mut a = from;
        while a < to {
            let e = child("FF-check", &env(a), Some(&journal));
            if e == End::Fine {
                break;
            }
            let (i, stage) = last().unwrap_or((a, "start".into()));
            let m = made(i);
            a = i + 1;
            if stage != "dec" {
                ctx::count("files on which FFmpeg itself broke", 1);
                continue;
            }
            // is it the decoder, or FFmpeg?
            let file = m["file"].as_str().unwrap_or_default().to_string();
            let one = |by: &str| child("FF-one", &[("AVH_FILE", file.clone()), ("AVH_BY", by.to_string())], None);
            let n = if e == End::Stuck { 1 } else { 3 };
            let reference: Vec<End> = (0..n).map(|_| one("reference")).collect();
            let decoder: Vec<End> = (0..n).map(|_| one("decoder")).collect();
            if reference.iter().all(|x| *x == End::Fine) && decoder.iter().all(|x| *x != End::Fine) {
                let what = if e == End::Stuck { "reading does not come to an end" } else { "the process is ended while reading" };
                ctx::violation(what, json!({"file": m["how"], "what": format!("{e:?}")}));
            } else {
                ctx::count("files on which FFmpeg itself broke", 1);
            }
        }
        for i in from..to {
            let m = made(i);
            if let Some(e) = m["refused"].as_str() {
                *refused.lock().unwrap().entry(e.into()).or_insert(0) += 1;
                ctx::count("files not made", 1);
            }
        }
        for l in std::fs::read_to_string(&journal).unwrap_or_default().lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["stage"] != "done" {
                continue;
            }
            let m = made(v["i"].as_u64().unwrap_or(0) as usize);
            ctx::case(Some(m["hash"].as_u64().unwrap_or(0)));
            if let Some(c) = v["counts"].as_object() {
                for (k, n) in c {
                    ctx::count(k, n.as_u64().unwrap_or(0));
                }
            }
            let h = &m["how"];
            ctx::count(&format!("coding:{} {}", h["codec"].as_str().unwrap_or(""), h["container"].as_str().unwrap_or("")), 1);
            if let Some(d) = h["damage"].as_str() {
                ctx::count(&format!("damage:{d}"), 1);
            }
            if v["i"].as_u64().unwrap_or(0) % 37 == 0 {
                ctx::sample(h.clone());
            }
            if let Some(e) = v["bad"].as_str() {
                if mode == "28" {
                    // memory the codec never wrote to must not decide: other processes, other patterns in fresh memory
                    let prints: std::collections::BTreeSet<String> = [1, 0x55, 0x7f, 0x80, 0xaa, 0xfe]
                        .iter()
                        .map(|p: &i32| format!("{:?}", child("FF-one", &[("AVH_FILE", m["file"].as_str().unwrap_or_default().to_string()), ("AVH_BY", "fingerprint".into()), ("MALLOC_PERTURB_", p.to_string())], None)))
                        .collect();
                    if prints.len() > 1 {
                        ctx::count("files the codec reads differently each time", 1);
                        continue;
                    }
                }
                ctx::violation(if mode == "27" { "coded video is not delivered as decoded" } else { "damaged or changing coded video" }, json!({"file": h, "what": e}));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    };
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |v| v.get()).min(8) {
            s.spawn(|| loop {
                let b = next.fetch_add(1, Ordering::Relaxed);
                if b * BATCH >= total || ctx::enough() {
                    break;
                }
                batch(b);
            });
        }
    });
    for (k, v) in refused.lock().unwrap().iter() {
        ctx::count(&format!("not made: {k}"), *v);
    }
}

pub fn c27() {
    ctx::rule("coded files made with the installed encoders (H.264, HEVC, AV1, VP9, VP8, MPEG-1/2/4, Theora, ProRes, JPEG 2000, VC-2, Snow, WMV, FLV, FFV1, HuffYUV, UT Video, MagicYUV, v210, MJPEG, raw; MKV, MP4, MOV, TS, PS, AVI, NUT, WebM, IVF, Ogg, ASF, FLV, Y4M and elementary streams; 8/10/12 bit, 4:2:0, 4:2:2, 4:4:4; up to 4 B-frames with pyramids and open GOPs, hidden reference frames, several pictures in a packet, with and without a sound track before the picture), read through the decoder and through a plain send/receive loop: every frame, plane and sample, number, order, details, end; distinct by content and coding");
    ctx::assume("the codecs themselves are FFmpeg's business: what they produce is the reference");
    run_files("27", ctx::n(1200, 30000));
}
/// Damaged and changing coded input.
pub fn c28() {
    ctx::rule("coded files as in C27, damaged (cut, bits flipped, bytes replaced, lost, zeroed, inserted) or put together from two videos that differ in size, format or depth; distinct by bytes");
    ctx::assume("where two runs of the reference with differently filled buffers differ, the codec leaves the samples undefined: only number and size of the frames are judged from there on; a process ended or stuck inside FFmpeg with the plain loop too is FFmpeg's matter");
    ctx::st().level = "fault_enumeration".into();
    run_files("28", ctx::n(1500, 40000));
}
