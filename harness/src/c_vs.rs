//! The VapourSynth decoder against a stand-in for the VapourSynth library.
use crate::api::{self, VIDEO_METRICS};
use crate::c_dec::{diff, read_all};
use crate::ctx::{self, Rng};
use crate::gen::*;
use crate::mock::{Log, Mock};
use crate::vs::{self, Clip, Fmt};
use av_metrics::video::decode::Decoder;
use av_metrics_decoders::{VapoursynthDecoder, VapoursynthDecoderPlugin};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::sync::Arc;

const KINDS: &[&str] = &["422 rows", "440", "411", "410", "packed", "deep", "float", "half", "no rate", "no size", "no format", "rgb", "no output"];

fn pic_of(r: &mut Rng, w: usize, h: usize, f: &Fmt, c: Content) -> Pic {
    let depth = f.bits.min(16) as usize;
    let cs = match (f.planes, f.sw, f.sh) {
        (1, ..) => Cs400,
        (_, 0, 0) => Cs444,
        (_, 1, 0) => Cs422,
        _ => Cs420,
    };
    let mut p = Pic::gen(r, w, h, depth, cs, c);
    if f.planes == 3 && (f.sw as usize, f.sh as usize) != dec(cs) {
        for k in 1..3 {
            let (cw, ch) = (w >> f.sw, h >> f.sh);
            p.p[k] = Buf { w: cw, h: ch, d: (0..cw * ch).map(|_| r.below(1 << depth) as u16).collect() };
        }
    }
    p
}
fn supported(r: &mut Rng, i: usize) -> Fmt {
    let (planes, sw, sh) = [(3, 1, 1), (3, 1, 0), (3, 0, 0), (1, 0, 0)][i % 4];
    let bits = if r.chance(0.4) { 8 } else { r.range(8, 16) as i32 };
    Fmt { family: if planes == 1 { vs::GRAY } else { vs::YUV }, float: false, bits, sw, sh, planes }
}
fn unsupported(k: &str) -> Fmt {
    let y = |bits, sw, sh| Fmt { family: vs::YUV, float: false, bits, sw, sh, planes: 3 };
    match k {
        "440" => y(8, 0, 1),
        "411" => y(8, 2, 0),
        "410" => y(8, 2, 2),
        "422 rows" => y(10, 0, 1),
        "packed" => Fmt { family: vs::COMPAT, float: false, bits: 32, sw: 0, sh: 0, planes: 1 },
        "deep" => y(24, 1, 1),
        "float" => Fmt { float: true, ..y(32, 0, 0) },
        "half" => Fmt { float: true, ..y(16, 0, 0) },
        "rgb" => Fmt { family: vs::RGB, ..y(8, 0, 0) },
        _ => y(8, 1, 1),
    }
}
struct Case {
    clip: Clip,
    name: String,
    how: &'static str,
    kind: String,
    path: PathBuf,
}
fn open(c: &Case) -> Result<VapoursynthDecoder, String> {
    match c.how {
        "script" => VapoursynthDecoder::new_from_script(&c.path),
        "video" => VapoursynthDecoder::new_from_video(&c.path),
        "lsmash" => VapoursynthDecoder::new_from_video_with_decoder(&c.path, VapoursynthDecoderPlugin::LSmash),
        _ => VapoursynthDecoder::new_from_video_with_decoder(&c.path, VapoursynthDecoderPlugin::BestSource),
    }
    .map_err(|e| e.to_string())
}
/// Puts the case's files and clips where the decoder will find them.
fn place(c: &Case) {
    let mut w = vs::world();
    w.clips.insert(c.name.clone(), c.clip.clone());
    if c.how == "script" {
        std::fs::write(&c.path, format!("#avh {}\n", c.name)).expect("HARNESS: scratch");
    } else {
        std::fs::write(&c.path, b"video").expect("HARNESS: scratch");
        w.videos.insert(c.path.canonicalize().expect("HARNESS").to_string_lossy().to_string(), c.name.clone());
    }
}
fn alive() -> (usize, usize, usize) {
    let w = vs::world();
    (w.nodes.len(), w.frames.len(), w.scripts.len())
}
/// Opens and reads the clip; Ok(true): delivered, Ok(false): refused.
fn judge(c: &Case, must_open: bool) -> Result<bool, String> {
    let mut d = match open(c) {
        Ok(d) => d,
        Err(e) if must_open => return Err(format!("refused: {e}")),
        Err(_) => return Ok(false),
    };
    let p = &c.clip.frames[0];
    let v = d.get_video_details();
    if (v.width, v.height, v.bit_depth) != (p.w, p.h, p.depth) || d.get_bit_depth() != p.depth {
        return Err(format!("details: {v:?}"));
    }
    let f = c.clip.fmt.unwrap();
    if must_open {
        if v.chroma_sampling != p.cs {
            return Err(format!("chroma format: {v:?}"));
        }
        if v.time_base.num as i128 * c.clip.rate.0 as i128 != v.time_base.den as i128 * c.clip.rate.1 as i128 || v.time_base.num == 0 {
            return Err(format!("frame rate {}/{}: {v:?}", c.clip.rate.0, c.clip.rate.1));
        }
        match d.get_frame_count() {
            Ok(n) if n == c.clip.frames.len() => {}
            e => return Err(format!("frame count {e:?} of {}", c.clip.frames.len())),
        }
    }
    let n = c.clip.fails.unwrap_or(c.clip.frames.len());
    for k in 0..n {
        let (mut got, _) = read_all(&mut d, false, 1);
        let Some(g) = got.pop() else { return Err(format!("{k} frames delivered of {n}")) };
        if let Some(e) = diff(&g, &c.clip.frames[k]) {
            return Err(format!("frame {k} ({f:?}): {e}"));
        }
        let a = alive();
        if a.1 != 0 {
            return Err(format!("{} frames kept after reading frame {k}", a.1));
        }
        if a.0 > 2 {
            return Err(format!("{} node references kept after reading frame {k}", a.0));
        }
    }
    for _ in 0..2 {
        if !read_all(&mut d, false, 1).0.is_empty() {
            return Err(format!("more than {n} frames delivered"));
        }
    }
    let (r0, want): (Vec<usize>, Vec<usize>) = (vs::world().requests.clone(), (0..n).collect());
    let mut seen = r0.clone();
    seen.dedup();
    seen.retain(|k| *k < n);
    if seen != want {
        return Err(format!("frames were asked for in the order {r0:?}"));
    }
    Ok(true)
}
fn gen_case(r: &mut Rng, i: usize, dir: &Path) -> (Case, bool) {
    let bad = i % 5 == 4;
    let kind = if bad { KINDS[(i / 5) % KINDS.len()] } else { "supported" };
    let fmt = if bad { unsupported(kind) } else { supported(r, i / 5 * 4 + i % 5) };
    let (mx, my) = (1usize << fmt.sw, 1usize << fmt.sh);
    let (w, h) = (size(r, 1, 70).div_ceil(mx) * mx, size(r, 1, 70).div_ceil(my) * my);
    let n = r.range(1, 6);
    let frames: Vec<Pic> = (0..n)
        .map(|_| {
            let c = *r.pick(&CONTENTS);
            pic_of(r, w, h, &fmt, c)
        })
        .collect();
    let rate = match r.below(8) {
        0 => (30000, 1001),
        1 => (1, 1),
        2 => (10_000_000_000, 417_083_333),
        3 => (1, 3600),
        4 => (r.irange(1, 1 << 40), r.irange(1, 1 << 40)),
        _ => (r.irange(1, 240), 1),
    };
    let mut clip = Clip {
        fmt: Some(fmt),
        size: (w, h),
        rate,
        frames,
        fails: (!bad && r.chance(0.15)).then(|| r.below(n)),
        fill: r.below(256) as u8,
        align: *r.pick(&[32, 64]),
        alpha: r.chance(0.2),
        no_output: kind == "no output",
    };
    match kind {
        "no rate" => clip.rate = (0, 0),
        "no size" => clip.size = (0, 0),
        "no format" => clip.fmt = None,
        _ => {}
    }
    let how = *r.pick(&["script", "script", "video", "lsmash", "best"]);
    let base = *r.pick(&["clip", "a b", "it's", "quote\"d", "back\\slash", "\\n", "trailing\\\\", "é日本", "{}", "%s", "#x", "'''", "\\\"", "\\x41", "tab\there", "-x", "c'\\\"\\"]);
    let path = dir.join(format!("{base}-{}{}", i % 7, if how == "script" { ".vpy" } else { ".mkv" }));
    (Case { clip, name: format!("clip{i}"), how, kind: kind.into(), path }, !bad)
}
pub fn c26() {
    ctx::rule("Clips of a stand-in VapourSynth library: planar grey and YUV 4:2:0, 4:2:2, 4:4:4 of 8 to 16 bits, sizes 1..70, 1..6 frames, rates up to 10^12, rows padded to 32 or 64 bytes with random bytes, with alpha clips and frames that cannot be made, by script and through both source plugins under awkward file names; every fifth clip in a format the decoder cannot describe; distinct by format, size and content");
    ctx::assume("VapourSynth behaves as its C interface documents; the library itself is not installed, a stand-in is linked");
    let dir = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp/vout/sc".into()));
    let n = ctx::n(6000, 120000);
    for i in 0..n {
        if ctx::enough() {
            break;
        }
        let mut r = ctx::rng(26_000_003u64.wrapping_mul(7).wrapping_add(i as u64));
        vs::reset();
        let before = alive();
        let (c, must_open) = gen_case(&mut r, i, &dir);
        place(&c);
        let res = ctx::catch(|| judge(&c, must_open));
        let after = alive();
        let misuse = std::mem::take(&mut vs::world().misuse);
        let _ = std::fs::remove_file(&c.path);
        ctx::case(Some(ctx::fnv(&[c.clip.frames[0].hash(), n as u64, i as u64 % 5])));
        let label = if must_open { format!("format_{}bit_{}", c.clip.frames[0].depth, cs_name(c.clip.frames[0].cs)) } else { format!("refused_or_exact_{}", c.kind) };
        ctx::count(&label, 1);
        ctx::count(&format!("opened_by_{}", c.how), 1);
        if c.clip.fails.is_some() {
            ctx::count("clips_with_a_failing_frame", 1);
        }
        ctx::count("frames_compared", c.clip.fails.unwrap_or(c.clip.frames.len()) as u64);
        let plugin = vs::world().plugin.clone();
        let want_plugin: &[&str] = match c.how {
            "script" => &[],
            "best" => &["core.bs.VideoSource"],
            _ => &["core.lsmas.LWLibavSource"],
        };
        let e = match res {
            Err(p) => format!("panic: {p}"),
            Ok(Err(e)) => e,
            Ok(Ok(_)) if !misuse.is_empty() => format!("misuse of the library: {}", misuse.join("; ")),
            Ok(Ok(_)) if after != before => format!("nodes, frames, scripts alive: {before:?} before, {after:?} after"),
            Ok(Ok(_)) if plugin != want_plugin => format!("opened with {plugin:?}"),
            Ok(Ok(opened)) => {
                ctx::count(if opened { "clips_delivered" } else { "clips_refused" }, 1);
                continue;
            }
        };
        ctx::violation("VapourSynth clip", json!({"case": i, "kind": c.kind, "format": format!("{:?}", c.clip.fmt), "size": format!("{:?}", c.clip.size), "rate": format!("{:?}", c.clip.rate), "frames": c.clip.frames.len(), "fails": c.clip.fails, "how": c.how, "file": c.path.file_name().map(|f| f.to_string_lossy().to_string()), "what": e}));
    }
    // what is not there, or no script
    for (k, (how, name, body)) in [
        ("script", "none.vpy", None),
        ("script", "bad.vpy", Some(&b"no python"[..])),
        ("script", "nul.vpy", Some(b"#avh x\0")),
        ("script", "enc.vpy", Some(b"#avh \xff\xfe")),
        ("video", "none.mkv", None),
        ("best", "none.mkv", None),
        ("lsmash", "text.mkv", Some(b"text")),
        ("lsmash", "line\nbreak.mkv", Some(b"text")),
        ("best", "c\rr.mkv", Some(b"text")),
        ("video", "dir/none.mkv", None),
    ]
    .into_iter()
    .enumerate()
    {
        vs::reset();
        let before = alive();
        let path = dir.join(name);
        if let Some(b) = body {
            std::fs::write(&path, b).expect("HARNESS: scratch");
        }
        let c = Case { clip: Clip { fmt: None, size: (0, 0), rate: (0, 0), frames: vec![], fails: None, fill: 0, align: 32, alpha: false, no_output: false }, name: "x".into(), how, kind: "missing".into(), path };
        let res = ctx::catch(|| open(&c).is_err());
        ctx::case(Some(ctx::fnv(&[k as u64, 77])));
        ctx::count("missing_or_invalid_inputs", 1);
        let e = match res {
            Ok(true) if alive() == before => continue,
            Ok(true) => "handles are not given back".to_string(),
            Ok(false) => "opened".to_string(),
            Err(p) => format!("panic: {p}"),
        };
        ctx::violation("input that is no clip", json!({"file": name, "how": how, "what": e}));
    }
    compare(&dir);
}
/// Whole comparisons through two decoders score as the same frames do from memory.
fn compare(dir: &Path) {
    for i in 0..ctx::n(400, 4000) {
        if ctx::enough() {
            break;
        }
        let mut r = ctx::rng(26_500_000 + i as u64);
        vs::reset();
        let m = VIDEO_METRICS[i % VIDEO_METRICS.len()];
        let f = supported(&mut r, i / 7);
        let f = Fmt { bits: if f.bits > 8 { *r.pick(&[10, 12]) } else { 8 }, ..f };
        let (w, h) = (r.range(16, 40) * 2, r.range(16, 30) * 2);
        let (n1, n2) = (r.range(1, 7), r.range(1, 7));
        let mk = |r: &mut Rng, n: usize| -> Vec<Pic> {
            (0..n)
                .map(|_| {
                    let c = *r.pick(&CONTENTS);
                    pic_of(r, w, h, &f, c)
                })
                .collect()
        };
        let (a, b) = (mk(&mut r, n1), mk(&mut r, n2));
        let case = |frames: &[Pic], k: usize, r: &mut Rng| Case {
            clip: Clip { fmt: Some(f), size: (w, h), rate: (25, 1), frames: frames.to_vec(), fails: None, fill: r.below(256) as u8, align: *r.pick(&[32, 64]), alpha: false, no_output: false },
            name: format!("v{k}"),
            how: "script",
            kind: String::new(),
            path: dir.join(format!("v{k}.vpy")),
        };
        let (ca, cb) = (case(&a, 1, &mut r), case(&b, 2, &mut r));
        place(&ca);
        place(&cb);
        let limit = r.chance(0.3).then(|| r.range(1, 8));
        let res = ctx::catch(|| {
            let (mut x, mut y) = (open(&ca).expect("open"), open(&cb).expect("open"));
            api::video(m, &mut x, &mut y, limit, |_| {})
        });
        let log = Arc::new(Log::default());
        let mut p = Mock::new(Arc::new(a), 1, log.clone());
        let mut q = Mock::new(Arc::new(b), 2, log);
        let want = api::video(m, &mut p, &mut q, limit, |_| {});
        ctx::case(Some(ctx::fnv(&[i as u64, 99, w as u64, h as u64])));
        ctx::count("comparisons", 1);
        let e = match res {
            Ok(got) if api::agree(m, &got, &want) && alive() == (0, 0, 0) => continue,
            Ok(got) if api::agree(m, &got, &want) => format!("left alive: {:?}", alive()),
            Ok(got) => format!("{got:?} for {want:?}"),
            Err(p) => format!("panic: {p}"),
        };
        ctx::violation("comparison of VapourSynth clips", json!({"case": i, "metric": m.name(), "format": format!("{f:?}"), "size": [w, h], "frames": [n1, n2], "limit": limit, "what": e}));
    }
}
