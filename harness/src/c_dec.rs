//! Checks on the bundled decoders and the chroma siting conversion.
use crate::api::{self, VIDEO_METRICS};
use crate::c_frame::par_cases;
use crate::ctx::{self, Rng};
use crate::gen::*;
use crate::refm;
use crate::y4mfile::*;
use av_metrics::video::decode::{convert_chroma_data, Decoder, VideoDetails};
use av_metrics::video::ChromaSamplePosition;
use av_metrics_decoders::y4m::new_decoder_from_file;
use serde_json::json;
use v_frame::pixel::Pixel;

/// What reading the stream must deliver on the chroma planes.
pub fn after_siting(p: &Pic, vertical: bool) -> Pic {
    let mut o = p.clone();
    if vertical {
        for k in 1..3 {
            let b = &p.p[k];
            for y in 0..b.h {
                let row = refm::siting_filter(&b.d[y * b.w..(y + 1) * b.w], p.depth);
                o.p[k].d[y * b.w..(y + 1) * b.w].copy_from_slice(&row);
            }
        }
    }
    o
}
pub fn diff(got: &[Buf; 3], want: &Pic) -> Option<String> {
    for k in 0..3 {
        let (g, w) = (&got[k], &want.p[k]);
        if w.w == 0 {
            // no chroma: nothing may be visible
            if g.w * g.h != 0 {
                return Some(format!("plane {k}: {}x{} samples where the format has none", g.w, g.h));
            }
            continue;
        }
        if (g.w, g.h) != (w.w, w.h) {
            return Some(format!("plane {k}: {}x{} delivered, {}x{} stored", g.w, g.h, w.w, w.h));
        }
        if let Some(i) = g.d.iter().zip(&w.d).position(|(a, b)| a != b) {
            return Some(format!("plane {k} sample ({},{}): {} delivered, {} expected", i % w.w, i / w.w, g.d[i], w.d[i]));
        }
    }
    None
}
fn next<T: Pixel, D: Decoder>(d: &mut D) -> Option<[Buf; 3]> {
    d.read_video_frame::<T>().map(|f| [visible(&f.planes[0]), visible(&f.planes[1]), visible(&f.planes[2])])
}
/// Reads up to `cap` frames until the first None; `wide` reads 8-bit samples as u16.
pub fn read_all<D: Decoder>(d: &mut D, wide: bool, cap: usize) -> (Vec<[Buf; 3]>, bool) {
    let mut o = vec![];
    while o.len() < cap {
        let f = if d.get_bit_depth() > 8 || wide { next::<u16, D>(d) } else { next::<u8, D>(d) };
        match f {
            Some(f) => o.push(f),
            None => return (o, true),
        }
    }
    (o, false)
}
fn gen_stream(r: &mut Rng, tag: Tag, w: usize, h: usize, n: usize) -> Vec<Pic> {
    (0..n)
        .map(|_| {
            let c = *r.pick(&CONTENTS);
            Pic::gen(r, w, h, tag.depth, tag.cs, c)
        })
        .collect()
}
fn details_diff(d: &VideoDetails, w: usize, h: usize, tag: Tag, rate: (usize, usize)) -> Option<String> {
    let ok = d.width == w
        && d.height == h
        && d.bit_depth == tag.depth
        && d.chroma_sampling == tag.cs
        && d.time_base.num as u128 * rate.0 as u128 == d.time_base.den as u128 * rate.1 as u128
        && (d.time_base.num == 0) == (rate.1 == 0)
        && (d.chroma_sample_position == ChromaSamplePosition::Vertical) == tag.vertical;
    (!ok).then(|| format!("{d:?}"))
}

pub fn c15() {
    ctx::rule("Y4M streams of every supported colour format, sizes 1..70 incl. odd ones, 1..6 frames, parameters in any order with extensions and frame parameters, read from files and from pipes with short reads; distinct by format, size and content");
    par_cases(1, ctx::n(3000, 60000), |r, i| {
        let tag = TAGS[i % TAGS.len()];
        let (w, h, n) = (size(r, 1, 70), size(r, 1, 70), r.range(1, 6));
        let rate = *r.pick(&[(25, 1), (30, 1), (30000, 1001), (24000, 1001), (1, 1), (50, 2), (1000000, 33333), (4294967297, 1), (1, 5_000_000_000), (9_000_000_001, 300_000_007)]);
        let frames = gen_stream(r, tag, w, h, n);
        let mut s = odd_header(r, w, h, tag.tag, rate);
        for p in &frames {
            s.extend_from_slice(*r.pick(&[&b"FRAME\n"[..], b"FRAME\n", b"FRAME Ip\n", b"FRAME XQ=1 Xfoo\n"]));
            s.extend(frame_bytes(p));
        }
        let head = String::from_utf8_lossy(&s[..s.iter().position(|b| *b == 10).unwrap()]).to_string();
        let wide = tag.depth == 8 && r.chance(0.1);
        let drip = r.chance(0.15);
        let res = ctx::catch(|| -> Result<(), String> {
            let (f, dr);
            let path = if drip {
                dr = Dripped::new(s.clone(), r.fork());
                dr.path()
            } else {
                f = MemFile::new(&s);
                f.path()
            };
            let mut d = new_decoder_from_file(&path).map_err(|e| format!("open failed: {e}"))?;
            let v = d.get_video_details();
            if let Some(e) = details_diff(&v, w, h, tag, rate) {
                return Err(format!("details differ from the header: {e}"));
            }
            if d.get_bit_depth() != tag.depth {
                return Err("bit depth differs from the header".into());
            }
            let (got, ended) = read_all(&mut d, wide, n + 3);
            if got.len() != n || !ended {
                return Err(format!("{} frames delivered, {n} stored", got.len()));
            }
            for (k, g) in got.iter().enumerate() {
                if let Some(e) = diff(g, &after_siting(&frames[k], tag.vertical)) {
                    return Err(format!("frame {k}: {e}"));
                }
            }
            Ok(())
        });
        ctx::case(Some(ctx::fnv(&[frames[0].hash(), n as u64, i as u64 % 14])));
        ctx::count(&format!("tag_{}", tag.tag), 1);
        ctx::count("frames_compared", n as u64);
        ctx::count("samples_compared", frames.iter().map(|p| p.p.iter().map(|b| b.d.len() as u64).sum::<u64>()).sum());
        if drip {
            ctx::count("short_read_streams", 1);
        }
        if i % 61 == 0 {
            ctx::sample(json!({"header": head, "frames": n}));
        }
        let e = match res {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {p}"),
        };
        ctx::violation("decoded video differs from the file", json!({"case": i, "header": head, "frames": n, "wide": wide, "pipe": drip, "what": e}));
    });
    large15();
    stdin15();
}

/// Wide, tall, full-size and long streams.
fn large15() {
    par_cases(2, ctx::few(60, 600), |r, i| {
        let tag = TAGS[(i / 5) % TAGS.len()];
        let (w, h, n) = match i % 5 {
            0 => (r.range(1000, 9000), r.range(1, 6), 2),
            1 => (r.range(1, 6), r.range(1000, 9000), 2),
            2 => (1920, 1080 + r.below(3), 1),
            3 => (65536 + r.range(0, 40), r.range(1, 3), 1),
            _ => (r.range(1, 12), r.range(1, 12), r.range(257, 1500)),
        };
        let k = n.min(16);
        let base = gen_stream(r, tag, w, h, k);
        let order: Vec<usize> = (0..n).map(|_| r.below(k)).collect();
        let mut s = header(w, h, tag.tag, (30, 1)).into_bytes();
        for j in &order {
            s.extend_from_slice(b"FRAME\n");
            s.extend(frame_bytes(&base[*j]));
        }
        let want: Vec<Pic> = base.iter().map(|p| after_siting(p, tag.vertical)).collect();
        let res = ctx::catch(|| -> Result<(), String> {
            let f = MemFile::new(&s);
            let mut d = new_decoder_from_file(f.path()).map_err(|e| format!("open failed: {e}"))?;
            if let Some(e) = details_diff(&d.get_video_details(), w, h, tag, (30, 1)) {
                return Err(format!("details differ from the header: {e}"));
            }
            for (at, j) in order.iter().enumerate() {
                let (mut g, _) = read_all(&mut d, false, 1);
                let Some(g) = g.pop() else { return Err(format!("{at} frames delivered of {n}")) };
                if let Some(e) = diff(&g, &want[*j]) {
                    return Err(format!("frame {at}: {e}"));
                }
            }
            if !read_all(&mut d, false, 1).0.is_empty() {
                return Err("more frames than stored".into());
            }
            Ok(())
        });
        ctx::case(Some(ctx::fnv(&[base[0].hash(), n as u64, w as u64])));
        ctx::count("large_or_long_streams", 1);
        ctx::count("frames_compared", n as u64);
        let e = match res {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {p}"),
        };
        ctx::violation("decoded video differs from the file", json!({"case": i, "tag": tag.tag, "size": [w, h], "frames": n, "what": e}));
    });
}
/// Decodes standard input and prints what came out.
pub fn stdin_child() -> ! {
    match av_metrics_decoders::y4m::new_decoder_from_stdin() {
        Err(e) => println!("E {e}"),
        Ok(mut d) => {
            let v = d.get_video_details();
            println!("V {} {} {} {} {} {} {}", v.width, v.height, v.bit_depth, cs_name(v.chroma_sampling), v.time_base.num, v.time_base.den, v.chroma_sample_position == ChromaSamplePosition::Vertical);
            let (f, ended) = read_all(&mut d, false, 100);
            for b in &f {
                println!("F {:x}", print_of(b));
            }
            println!("END {ended}");
        }
    }
    std::process::exit(0)
}
fn print_of(b: &[Buf; 3]) -> u64 {
    let mut v = vec![];
    for p in b {
        if p.w * p.h == 0 {
            continue;
        }
        v.extend([p.w as u64, p.h as u64]);
        v.extend(p.d.iter().map(|x| *x as u64));
    }
    ctx::fnv(&v)
}
/// Streams on standard input: pipes written in bursts, and files; whole and cut.
fn stdin15() {
    let exe = std::env::current_exe().expect("HARNESS: own path");
    par_cases(3, ctx::few(120, 1500), |r, i| {
        let tag = TAGS[i % TAGS.len()];
        let (w, h, n) = if r.chance(0.1) { (r.range(300, 900), r.range(200, 500), 3) } else { (size(r, 1, 70), size(r, 1, 70), r.range(1, 6)) };
        let frames = gen_stream(r, tag, w, h, n);
        let mut s = odd_header(r, w, h, tag.tag, (30000, 1001));
        let head = s.len();
        for p in &frames {
            s.extend_from_slice(b"FRAME\n");
            s.extend(frame_bytes(p));
        }
        let each = (s.len() - head) / n;
        let cut = if r.chance(0.25) { r.range(head, s.len()) } else { s.len() };
        s.truncate(cut);
        let whole = (cut - head) / each;
        let piped = r.chance(0.7);
        let f;
        let mut c = std::process::Command::new(&exe);
        c.arg("C15-stdin").stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
        if piped {
            c.stdin(std::process::Stdio::piped());
        } else {
            f = MemFile::new(&s);
            c.stdin(std::fs::File::open(f.path()).expect("HARNESS: stdin"));
        }
        let mut p = c.spawn().expect("HARNESS: child process");
        let feeder = p.stdin.take().map(|mut q| {
            let (s, mut r) = (s.clone(), r.fork());
            std::thread::spawn(move || {
                use std::io::Write;
                let mut at = 0;
                while at < s.len() {
                    let k = r.range(1, 20000).min(s.len() - at);
                    if q.write_all(&s[at..at + k]).is_err() {
                        break;
                    }
                    at += k;
                    if r.chance(0.05) {
                        std::thread::sleep(std::time::Duration::from_millis(3));
                    }
                }
            })
        });
        let out = p.wait_with_output().expect("HARNESS: child process");
        if let Some(t) = feeder {
            let _ = t.join();
        }
        let mut want = vec![format!("V {w} {h} {} {} 1001 30000 {}", tag.depth, cs_name(tag.cs), tag.vertical)];
        for q in frames.iter().take(whole) {
            let q = after_siting(q, tag.vertical);
            want.push(format!("F {:x}", print_of(&q.p)));
        }
        want.push("END true".into());
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let got: Vec<String> = text.lines().map(str::to_string).collect();
        ctx::case(Some(ctx::fnv(&[frames[0].hash(), 0x57d1, cut as u64])));
        ctx::count(if piped { "streams_from_a_pipe_on_stdin" } else { "streams_from_a_file_on_stdin" }, 1);
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            ctx::violation("video decoded from standard input differs", json!({"case": i, "tag": tag.tag, "size": [w, h], "frames": n, "intact": whole, "piped": piped, "line": k, "got": got.get(k), "want": want.get(k), "status": format!("{:?}", out.status)}));
        }
    });
}

/// Judges one damaged stream: `intact` frames must come first, unchanged.
/// `exact`: no further frame may follow them.
fn judge16(i: usize, kind: &str, s: &[u8], tag: Tag, frames: &[Pic], intact: usize, exact: bool, must_fail_open: Option<bool>) {
    let cap = 60;
    let r = ctx::catch(|| -> Result<&'static str, String> {
        let f = MemFile::new(s);
        let mut d = match new_decoder_from_file(f.path()) {
            Err(_) => {
                return if must_fail_open == Some(false) { Err("a readable header is rejected".into()) } else { Ok("open error") }
            }
            Ok(d) => d,
        };
        if must_fail_open == Some(true) {
            return Err("opens although the header is incomplete".into());
        }
        let _ = d.get_video_details();
        let (got, ended) = read_all(&mut d, false, cap);
        if got.len() < intact {
            return Err(format!("{} frames delivered, {intact} intact ones stored", got.len()));
        }
        for k in 0..intact {
            if let Some(e) = diff(&got[k], &after_siting(&frames[k], tag.vertical)) {
                return Err(format!("intact frame {k}: {e}"));
            }
        }
        if exact && (got.len() > intact || !ended) {
            return Err(format!("{} frames delivered although only {intact} are complete", got.len()));
        }
        Ok(if got.is_empty() { "no frame" } else { "some frames" })
    });
    ctx::case(Some(ctx::fnv(&[ctx::hash_str(kind), ctx::fnv(&s.iter().map(|b| *b as u64).collect::<Vec<_>>())])));
    ctx::count(&format!("damage:{kind}"), 1);
    let e = match r {
        Ok(Ok(k)) => {
            ctx::count(&format!("outcome:{k}"), 1);
            return;
        }
        Ok(Err(e)) => e,
        Err(p) => format!("panic: {p}"),
    };
    let head = String::from_utf8_lossy(&s[..s.len().min(160)]).escape_debug().to_string();
    ctx::violation("damaged stream mishandled", json!({"case": i, "damage": kind, "bytes": s.len(), "begins": head, "tag": tag.tag, "intact": intact, "what": e}));
}

pub fn c16() {
    ctx::rule("every truncation point of small streams of every colour format; damaged frame markers, damaged and hostile headers, deleted/inserted/garbage bytes, huge sizes, unreadable inputs; distinct by damaged byte string");
    // every truncation point
    par_cases(1, TAGS.len() * ctx::n(2, 12), |r, i| {
        let tag = TAGS[i % TAGS.len()];
        let (w, h, n) = (r.range(1, 7), r.range(1, 5), r.range(1, 3));
        let frames = gen_stream(r, tag, w, h, n);
        let s = stream(tag.tag, &frames);
        let hl = s.iter().position(|b| *b == 10).unwrap() + 1;
        let fl = (s.len() - hl) / n;
        for cut in 0..s.len() {
            let intact = if cut < hl { 0 } else { (cut - hl) / fl };
            judge16(i, "truncated", &s[..cut], tag, &frames, intact, true, Some(cut < hl));
            if ctx::enough() {
                return;
            }
        }
    });
    par_cases(2, ctx::n(6000, 120000), |r, i| {
        let tag = TAGS[i % TAGS.len()];
        let (w, h, n) = (r.range(1, 20), r.range(1, 12), r.range(1, 5));
        let frames = gen_stream(r, tag, w, h, n);
        let mut s = stream(tag.tag, &frames);
        let hl = s.iter().position(|b| *b == 10).unwrap() + 1;
        let fl = (s.len() - hl) / n;
        let k = r.below(n);
        let at = hl + k * fl;
        match r.below(10) {
            8 | 9 => {
                // whole lines that are no frame marker, in front of one or several markers
                let hd = s[..hl].to_vec();
                let mut places: Vec<usize> = (0..r.range(1, 2)).map(|_| r.range(k, n - 1)).collect();
                places.push(k);
                places.sort();
                places.dedup();
                for q in places.into_iter().rev() {
                    let mut line: Vec<u8> = match r.below(8) {
                        0 => b"\n".to_vec(),
                        1 => b"FRXME\n".to_vec(),
                        2 => b"FRAM\n".to_vec(),
                        3 => b" FRAME\n".to_vec(),
                        4 => hd.clone(),
                        5 => b"frame\n".to_vec(),
                        6 => vec![0; r.range(1, 8)],
                        _ => {
                            let mut v: Vec<u8> = (0..r.range(1, 80)).map(|_| r.range(32, 126) as u8).collect();
                            v[0] = b'#';
                            v.push(10);
                            v
                        }
                    };
                    if r.chance(0.2) {
                        let l2 = line.clone();
                        line.extend(l2);
                    }
                    let p = hl + q * fl;
                    s.splice(p..p, line);
                }
                judge16(i, "lines between frames", &s, tag, &frames, k, true, Some(false));
            }
            0 => {
                // frame marker damaged: that frame and what follows are not frames any more
                let j = r.below(5);
                s[at + j] ^= 1 << r.below(8);
                judge16(i, "frame marker", &s, tag, &frames, k, true, Some(false));
            }
            1 => {
                let d = r.range(1, fl.min(9));
                let p = at + r.below(fl - d + 1);
                s.drain(p..p + d);
                judge16(i, "bytes deleted", &s, tag, &frames, k, false, Some(false));
            }
            2 => {
                let p = at + r.below(fl);
                for _ in 0..r.range(1, 9) {
                    s.insert(p, r.below(256) as u8);
                }
                judge16(i, "bytes inserted", &s, tag, &frames, k, false, Some(false));
            }
            3 => {
                for _ in 0..r.range(1, 4) {
                    let p = r.below(hl);
                    s[p] = *r.pick(&[0u8, b' ', b'\n', b'9', b'0', b'-', b'C', b'W', b':', 0xff, b'x']);
                }
                judge16(i, "header bytes", &s, tag, &frames, 0, false, None);
            }
            4 => {
                // sizes and rates nobody can hold
                let big = ["0", "-1", "1e9", "18446744073709551615", "18446744073709551616", "9223372036854775808", "4294967296", "4294967297", "99999999999", "1073741825", "", "+3", " 4"];
                let (a, b, c) = (r.pick(&big), r.pick(&big), r.pick(&big));
                let (fw, fh) = (format!("{w}"), format!("{h}"));
                let (ww, hh) = match r.below(3) {
                    0 => (*a, *b),
                    1 => (*a, fh.as_str()),
                    _ => (fw.as_str(), *b),
                };
                let rate = if r.chance(0.3) { format!("{c}:{}", r.pick(&big)) } else { "25:1".into() };
                let mut t = format!("YUV4MPEG2 W{ww} H{hh} F{rate} C{}\n", tag.tag).into_bytes();
                t.extend_from_slice(&s[hl..]);
                judge16(i, "impossible size", &t, tag, &frames, 0, false, None);
            }
            5 => {
                let t = *r.pick(&["420p9", "420p14", "420p16", "422p16", "444p16", "mono10", "mono16", "444alpha", "411", "", "RGB", "420JPEG"]);
                let mut u = header(w, h, t, (25, 1)).into_bytes();
                u.extend_from_slice(&s[hl..]);
                judge16(i, "unknown colour format", &u, tag, &frames, 0, false, None);
            }
            6 => {
                // over-long parameter lines
                let pad = "X".to_string() + &"y".repeat(*r.pick(&[900, 1000, 1020, 1024, 1100, 5000]));
                let mut t = format!("YUV4MPEG2 W{w} H{h} C{}{}\n", tag.tag, if r.chance(0.5) { format!(" {pad}") } else { String::new() }).into_bytes();
                for (j, p) in frames.iter().enumerate() {
                    t.extend_from_slice(b"FRAME");
                    if j == k {
                        t.push(b' ');
                        t.extend_from_slice(pad.as_bytes());
                    }
                    t.push(b'\n');
                    t.extend(frame_bytes(p));
                }
                judge16(i, "long parameters", &t, tag, &frames, 0, false, None);
            }
            _ => {
                // garbage, possibly with valid beginnings
                let keep = *r.pick(&[0usize, 4, 9, 10, hl, hl + 3, hl + 6]);
                let mut t = s[..keep.min(s.len())].to_vec();
                for _ in 0..r.below(3000) {
                    t.push(if r.chance(0.1) { 10 } else { r.below(256) as u8 });
                }
                judge16(i, "garbage", &t, tag, &frames, 0, false, None);
            }
        }
    });
    // inputs that cannot be read at all
    for p in ["/nonexistent/video.y4m", "/", "/dev/null", "/proc/self/mem"] {
        let r = ctx::catch(|| new_decoder_from_file(p).map(|_| ()));
        ctx::case(Some(ctx::hash_str(p)));
        ctx::count("damage:unreadable", 1);
        if !matches!(r, Ok(Err(_))) {
            ctx::violation("unreadable input is not an error", json!({"path": p, "outcome": format!("{r:?}")}));
        }
    }
}

const SITINGS: [ChromaSamplePosition; 5] = [
    ChromaSamplePosition::Vertical,
    ChromaSamplePosition::Unknown,
    ChromaSamplePosition::Colocated,
    ChromaSamplePosition::Bilateral,
    ChromaSamplePosition::Interpolated,
];
fn siting_case<T: Pixel>(r: &mut Rng, i: usize, wmax: usize) {
    let wide = std::mem::size_of::<T>() == 2;
    let depth = if wide { r.range(8, 16) } else { 8 };
    let bytes = if wide && (depth > 8 || r.chance(0.5)) { 2 } else { 1 };
    let pos = if i % 8 < 4 { SITINGS[0] } else { SITINGS[i % 5] };
    let (w, h) = match wmax {
        0 => (r.range(1, 30), r.range(100, 3000)),
        1..=300 => (if i < 240 { 1 + i / 4 % 60 } else { size(r, 1, wmax) }, r.range(1, 12)),
        _ => (r.range(wmax / 2, wmax), r.range(1, 4)),
    };
    let top = if bytes == 1 { 255usize } else { (1 << depth) - 1 };
    let content = r.below(5);
    let base = r.below(top + 1);
    let val = |r: &mut Rng, x: usize| -> usize {
        match content {
            0 => r.below(top + 1),
            1 => *r.pick(&[0, top]),
            2 => (x * 7 + base) % (top + 1),
            3 => base,
            _ => if x % 2 == 0 { top } else { 0 },
        }
    };
    let row_bytes = w * bytes;
    let stride = row_bytes + if r.chance(0.5) { 0 } else { r.range(1, 40) * bytes };
    // the last row need not be followed by its padding
    let len = if r.chance(0.5) { stride * (h - 1) + row_bytes } else { stride * h };
    let mut src: Vec<u8> = (0..len).map(|_| r.below(256) as u8).collect();
    let mut want = vec![];
    for y in 0..h {
        let row: Vec<u16> = (0..w).map(|x| val(r, x) as u16).collect();
        for x in 0..w {
            let o = y * stride + x * bytes;
            src[o] = row[x] as u8;
            if bytes == 2 {
                src[o + 1] = (row[x] >> 8) as u8;
            }
        }
        want.push(if pos == SITINGS[0] { refm::siting_filter(&row, depth) } else { row });
    }
    // destination in any layout, pre-filled with a marker
    let l = Layout::random(r);
    let mut pic = Pic::blank(w, h, if wide { 16 } else { 8 }, Cs444);
    for b in pic.p.iter_mut() {
        b.d.fill(77);
    }
    let mut plane = pic.frame_in::<T>(&l, r).planes[1].clone();
    for v in plane.data.iter_mut() {
        *v = T::cast_from(77u16);
    }
    let before = plane.cfg.clone();
    let res = ctx::catch(|| {
        convert_chroma_data(&mut plane, pos, depth, &src, stride, bytes);
    });
    ctx::case(Some(ctx::fnv(&[ctx::fnv(&src.iter().map(|b| *b as u64).collect::<Vec<_>>()), w as u64, h as u64, stride as u64, bytes as u64])));
    ctx::count(if pos == SITINGS[0] { "filtered" } else { "copied" }, 1);
    ctx::count(&format!("bytes_{bytes}_into_{}", std::mem::size_of::<T>()), 1);
    let mut bad = match res {
        Err(p) => Some(format!("panic: {p}")),
        Ok(()) => None,
    };
    if bad.is_none() && plane.cfg != before {
        bad = Some("plane geometry changed".into());
    }
    if bad.is_none() {
        let v = visible(&plane);
        'o: for y in 0..h {
            for x in 0..w {
                if v.d[y * w + x] != want[y][x] {
                    bad = Some(format!("sample ({x},{y}): {} instead of {}", v.d[y * w + x], want[y][x]));
                    break 'o;
                }
            }
        }
    }
    if bad.is_none() {
        // nothing outside the visible rectangle may be written
        let c = &plane.cfg;
        for (j, v) in plane.data.iter().enumerate() {
            let (y, x) = (j / c.stride, j % c.stride);
            let inside = y >= c.yorigin && y < c.yorigin + h && x >= c.xorigin && x < c.xorigin + w;
            if !inside && u16::cast_from(*v) != 77 {
                // copy_from_raw_u8 of the storage crate may spill source padding to the right of a row
                if pos != SITINGS[0] && y >= c.yorigin && y < c.yorigin + h {
                    ctx::count("copy_spill_right", 1);
                    break;
                }
                bad = Some(format!("buffer element {j} (outside the picture) was written"));
                break;
            }
        }
    }
    if i % 97 == 5 {
        ctx::sample(json!({"width": w, "height": h, "depth": depth, "bytes": bytes, "stride": stride, "siting": format!("{pos:?}"), "layout": format!("{l:?}")}));
    }
    if let Some(e) = bad {
        ctx::violation("siting conversion", json!({"case": i, "width": w, "height": h, "depth": depth, "bytes": bytes, "sample": std::mem::size_of::<T>(), "source_stride": stride, "source_len": len, "siting": format!("{pos:?}"), "layout": format!("{l:?}"), "what": e}));
    }
}
use v_frame::pixel::CastFromPrimitive;
pub fn c17() {
    ctx::rule("calls of the chroma conversion for every siting, width 1..60 exhaustively and larger ones, heights 1..12, source strides with junk padding, exact-length sources, destination planes in library/tight/custom layouts, u8 and u16 planes, 1- and 2-byte sources, depths 8..16; distinct by source bytes and geometry");
    par_cases(1, ctx::n(20000, 400000), |r, i| {
        if r.chance(0.5) {
            siting_case::<u8>(r, i, 300);
        } else {
            siting_case::<u16>(r, i, 300);
        }
    });
    // wide and tall planes
    par_cases(2, ctx::few(200, 3000), |r, i| {
        let wmax = [0, 0, 2000, 9000, 70000][i / 8 % 5];
        ctx::count("wide_or_tall_planes", 1);
        if r.chance(0.5) {
            siting_case::<u8>(r, i, wmax);
        } else {
            siting_case::<u16>(r, i, wmax);
        }
    });
}

/// Same padded size, different true size.
pub fn c10_files() {
    par_cases(3, ctx::n(140, 2000), |r, i| {
        let tag = *r.pick(&TAGS[..12]);
        let (w, h) = (r.range(33, 60), r.range(33, 60));
        let d = r.range(1, 7);
        let (w2, h2) = match r.below(3) {
            0 => (w, h - d),
            1 => (w - d, h),
            _ => ((w / 8) * 8, (w / 8) * 8 + 1),
        };
        if (w, h) == (w2, h2) {
            return;
        }
        let m = VIDEO_METRICS[i % 7];
        let a = gen_stream(r, tag, w, h, 2);
        let b = gen_stream(r, tag, w2, h2, 2);
        let (fa, fb) = (MemFile::new(&stream(tag.tag, &a)), MemFile::new(&stream(tag.tag, &b)));
        let (Ok(mut d1), Ok(mut d2)) = (new_decoder_from_file(fa.path()), new_decoder_from_file(fb.path())) else {
            ctx::violation("well-formed stream does not open", json!({"tag": tag.tag}));
            return;
        };
        let o = api::video(m, &mut d1, &mut d2, None, |_| {});
        ctx::case(Some(ctx::fnv(&[a[0].hash(), b[0].hash(), m as u64])));
        ctx::count("rejected:file size mismatch", 1);
        if !matches!(o, api::Out::Err(..)) {
            ctx::violation("videos of different size are not rejected", json!({"metric": m.name(), "first": [w, h], "second": [w2, h2], "format": tag.tag, "outcome": format!("{o:?}")}));
        }
    });
}

#[cfg(not(feature = "ffmpeg"))]
pub fn c18() {
    eprintln!("built without ffmpeg");
    std::process::exit(2);
}
#[cfg(feature = "ffmpeg")]
pub fn c18() {
    use av_metrics_decoders::FfmpegDecoder;
    ctx::rule("the same Y4M stream read through both decoders: 8/10/12 bit 4:2:0, 4:2:2, 4:4:4, sizes 1..90 and some larger, 1..8 frames; every frame, plane and sample and all details compared, and with the stored samples; distinct by content");
    ctx::assume("colour formats for which the two decoders declare different chroma siting (4:2:0 MPEG-2) and monochrome, which the FFmpeg decoder refuses, are left out");
    let tags: Vec<Tag> = TAGS.iter().copied().filter(|t| t.cs != Cs400 && t.tag != "420mpeg2" && t.tag != "420paldv").collect();
    par_cases(1, ctx::n(700, 12000), |r, i| {
        let tag = tags[i % tags.len()];
        let big = r.chance(0.05);
        let (w, h, n) = if big { (size(r, 90, 400), size(r, 90, 300), 2) } else { (size(r, 1, 90), size(r, 1, 90), r.range(1, 8)) };
        let frames = gen_stream(r, tag, w, h, n);
        let rate = *r.pick(&[(25, 1), (30, 1), (30000, 1001), (24000, 1001), (60, 1), (12, 1)]);
        let mut s = header(w, h, tag.tag, rate).into_bytes();
        for p in &frames {
            s.extend_from_slice(b"FRAME\n");
            s.extend(frame_bytes(p));
        }
        let f = MemFile::new(&s);
        let res = ctx::catch(|| -> Result<(), String> {
            let mut d1 = new_decoder_from_file(f.path()).map_err(|e| format!("y4m open: {e}"))?;
            let mut d2 = FfmpegDecoder::new(f.path()).map_err(|e| format!("ffmpeg open: {e}"))?;
            let (a, b) = (d1.get_video_details(), d2.get_video_details());
            if let Some(e) = details_diff(&b, w, h, tag, rate) {
                return Err(format!("ffmpeg details {e}, y4m details {a:?}"));
            }
            if let Some(e) = details_diff(&a, w, h, tag, rate) {
                return Err(format!("y4m details {e}"));
            }
            let (g1, e1) = read_all(&mut d1, false, n + 2);
            let (g2, e2) = read_all(&mut d2, false, n + 2);
            if g1.len() != g2.len() || e1 != e2 || g1.len() != n {
                return Err(format!("{} frames through y4m, {} through ffmpeg, {n} stored", g1.len(), g2.len()));
            }
            for k in 0..n {
                let want = after_siting(&frames[k], tag.vertical);
                if let Some(e) = diff(&g2[k], &want) {
                    return Err(format!("ffmpeg frame {k}: {e}"));
                }
                if let Some(e) = diff(&g1[k], &want) {
                    return Err(format!("y4m frame {k}: {e}"));
                }
            }
            // the end stays the end
            let (g3, _) = read_all(&mut d2, false, 2);
            if !g3.is_empty() {
                return Err("ffmpeg delivers frames after reporting the end".into());
            }
            Ok(())
        });
        ctx::case(Some(ctx::fnv(&[frames[0].hash(), n as u64])));
        ctx::count(&format!("tag_{}", tag.tag), 1);
        ctx::count("frames_compared", n as u64);
        if i % 41 == 0 {
            ctx::sample(json!({"tag": tag.tag, "size": [w, h], "frames": n, "rate": [rate.0, rate.1]}));
        }
        let e = match res {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {p}"),
        };
        ctx::violation("ffmpeg and y4m decoders differ", json!({"case": i, "tag": tag.tag, "size": [w, h], "frames": n, "what": e}));
    });
}
