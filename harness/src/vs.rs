//! A stand-in for the VapourSynth and VSScript libraries, as seen through their C interfaces: scripts
//! name clips of a registry, frames have the strides, padding and lifetimes the real library gives
//! them, and every use of a handle is checked against what is alive.
use crate::gen::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::sync::{Mutex, MutexGuard};
use vapoursynth_sys as ffi;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fmt {
    pub family: i32,
    pub float: bool,
    pub bits: i32,
    pub sw: i32,
    pub sh: i32,
    pub planes: i32,
}
pub const GRAY: i32 = 1000000;
pub const RGB: i32 = 2000000;
pub const YUV: i32 = 3000000;
pub const COMPAT: i32 = 9000000;

#[derive(Clone)]
pub struct Clip {
    /// None: frames of different formats
    pub fmt: Option<Fmt>,
    /// 0x0: frames of different sizes
    pub size: (usize, usize),
    /// 0/0: variable
    pub rate: (i64, i64),
    pub frames: Vec<Pic>,
    /// this frame cannot be made
    pub fails: Option<usize>,
    pub fill: u8,
    pub align: usize,
    /// set_output also gives an alpha clip
    pub alpha: bool,
    pub no_output: bool,
}
struct FrameObj {
    fmt: &'static ffi::VSFormat,
    planes: Vec<(usize, usize, usize, usize, Vec<u8>)>, // width, height, stride, offset, data
}
struct ScriptObj {
    clip: Option<String>,
    error: CString,
}
#[derive(Default)]
pub struct World {
    pub clips: HashMap<String, Clip>,
    pub videos: HashMap<String, String>,
    /// everything handed out and not given back
    pub nodes: HashMap<usize, String>,
    pub frames: HashSet<usize>,
    pub scripts: HashSet<usize>,
    infos: HashMap<String, usize>,
    formats: HashMap<String, &'static ffi::VSFormat>,
    /// (frame number) requests in order
    pub requests: Vec<usize>,
    pub misuse: Vec<String>,
    pub plugin: Vec<String>,
    retired: Vec<Box<FrameObj>>,
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);
pub struct W(MutexGuard<'static, Option<World>>);
impl std::ops::Deref for W {
    type Target = World;
    fn deref(&self) -> &World {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for W {
    fn deref_mut(&mut self) -> &mut World {
        self.0.as_mut().unwrap()
    }
}
pub fn world() -> W {
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_with(World::default);
    W(g)
}
/// Forgets clips and remembered frames; what is alive stays on the books.
pub fn reset() {
    let mut w = world();
    w.clips.clear();
    w.videos.clear();
    w.requests.clear();
    w.misuse.clear();
    w.plugin.clear();
    w.retired.clear();
    let infos: Vec<usize> = w.infos.drain().map(|x| x.1).collect();
    if w.nodes.is_empty() {
        for p in infos {
            unsafe { drop(Box::from_raw(p as *mut ffi::VSVideoInfo)) };
        }
    }
}
impl World {
    fn format(&mut self, f: &Fmt) -> &'static ffi::VSFormat {
        self.formats.entry(format!("{f:?}")).or_insert_with(|| {
            let bytes = match f.bits {
                ..=8 => 1,
                9..=16 => 2,
                _ => 4,
            };
            Box::leak(Box::new(ffi::VSFormat {
                name: [0; 32],
                id: 7000000 + f.bits,
                colorFamily: f.family,
                sampleType: f.float as c_int,
                bitsPerSample: f.bits,
                bytesPerSample: if f.family == COMPAT { 4 } else { bytes },
                subSamplingW: f.sw,
                subSamplingH: f.sh,
                numPlanes: f.planes,
            }))
        })
    }
    fn misuse(&mut self, s: String) {
        if self.misuse.len() < 20 {
            self.misuse.push(s);
        }
    }
}

extern "system" fn stub() {
    eprintln!("HARNESS: the stand-in VapourSynth library does not have this function");
    std::process::exit(3);
}
unsafe extern "system" fn get_video_info(node: *mut ffi::VSNodeRef) -> *const ffi::VSVideoInfo {
    let mut w = world();
    let name = match w.nodes.get(&(node as usize)) {
        Some(n) => n.clone(),
        None => {
            w.misuse("a freed node is asked for its information".into());
            stub();
            unreachable!()
        }
    };
    if let Some(p) = w.infos.get(&name) {
        return *p as *const _;
    }
    let c = w.clips[&name].clone();
    let format = c.fmt.map_or(std::ptr::null(), |f| w.format(&f) as *const _);
    let p = Box::into_raw(Box::new(ffi::VSVideoInfo {
        format,
        fpsNum: c.rate.0,
        fpsDen: c.rate.1,
        width: c.size.0 as c_int,
        height: c.size.1 as c_int,
        numFrames: c.frames.len() as c_int,
        flags: 0,
    }));
    w.infos.insert(name, p as usize);
    p
}
unsafe extern "system" fn get_frame(n: c_int, node: *mut ffi::VSNodeRef, err: *mut c_char, len: c_int) -> *const ffi::VSFrameRef {
    let mut w = world();
    let Some(name) = w.nodes.get(&(node as usize)).cloned() else {
        w.misuse("a freed node is asked for a frame".into());
        return std::ptr::null();
    };
    let n = n as usize;
    w.requests.push(n);
    let c = &w.clips[&name];
    if c.fails == Some(n) || n >= c.frames.len() {
        let m = b"the filter failed\0";
        for (i, b) in m.iter().enumerate().take(len as usize) {
            *err.add(i) = *b as c_char;
        }
        return std::ptr::null();
    }
    let (pic, fill, align) = (c.frames[n].clone(), c.fill, c.align);
    let f = c.fmt.unwrap();
    let fmt = w.format(&f);
    let mut planes = vec![];
    for k in 0..f.planes as usize {
        let b = &pic.p[k];
        let bytes = fmt.bytesPerSample as usize;
        let stride = (b.w * bytes).div_ceil(align) * align;
        // the real library aligns every row
        let mut d = vec![fill; stride * b.h + align];
        let off = d.as_ptr().align_offset(align);
        for y in 0..b.h {
            for x in 0..b.w {
                let v = b.d[y * b.w + x];
                let at = off + y * stride + x * bytes;
                d[at] = v as u8;
                if bytes > 1 {
                    d[at + 1] = (v >> 8) as u8;
                }
            }
        }
        planes.push((b.w, b.h, stride, off, d));
    }
    let p = Box::into_raw(Box::new(FrameObj { fmt, planes })) as usize;
    w.frames.insert(p);
    p as *const _
}
fn frame<'a>(p: *const ffi::VSFrameRef, what: &str) -> Option<&'a FrameObj> {
    let mut w = world();
    if !w.frames.contains(&(p as usize)) {
        w.misuse(format!("{what} of a freed frame"));
        return None;
    }
    Some(unsafe { &*(p as *const FrameObj) })
}
unsafe extern "system" fn free_frame(p: *const ffi::VSFrameRef) {
    if p.is_null() {
        return;
    }
    let mut w = world();
    if !w.frames.remove(&(p as usize)) {
        w.misuse("a frame is freed twice".into());
        return;
    }
    // the memory goes back to the pool and gets other contents
    let mut b = Box::from_raw(p as *mut FrameObj);
    for q in &mut b.planes {
        q.4.fill(0x5a);
    }
    w.retired.push(b);
    if w.retired.len() > 8 {
        w.retired.remove(0);
    }
}
unsafe extern "system" fn free_node(p: *mut ffi::VSNodeRef) {
    if p.is_null() {
        return;
    }
    let mut w = world();
    if w.nodes.remove(&(p as usize)).is_none() {
        w.misuse("a node is freed twice".into());
        return;
    }
    drop(Box::from_raw(p as *mut u64));
}
fn new_node(w: &mut World, name: &str) -> *mut ffi::VSNodeRef {
    let p = Box::into_raw(Box::new(0u64)) as usize;
    w.nodes.insert(p, name.to_string());
    p as *mut _
}
unsafe extern "system" fn clone_node(p: *mut ffi::VSNodeRef) -> *mut ffi::VSNodeRef {
    let mut w = world();
    match w.nodes.get(&(p as usize)).cloned() {
        Some(n) => new_node(&mut w, &n),
        None => {
            w.misuse("a freed node is cloned".into());
            std::ptr::null_mut()
        }
    }
}
unsafe extern "system" fn frame_format(p: *const ffi::VSFrameRef) -> *const ffi::VSFormat {
    frame(p, "format").map_or(std::ptr::null(), |f| f.fmt as *const _)
}
unsafe extern "system" fn frame_width(p: *const ffi::VSFrameRef, k: c_int) -> c_int {
    frame(p, "width").map_or(0, |f| f.planes[k as usize].0 as c_int)
}
unsafe extern "system" fn frame_height(p: *const ffi::VSFrameRef, k: c_int) -> c_int {
    frame(p, "height").map_or(0, |f| f.planes[k as usize].1 as c_int)
}
unsafe extern "system" fn frame_stride(p: *const ffi::VSFrameRef, k: c_int) -> c_int {
    frame(p, "stride").map_or(0, |f| f.planes[k as usize].2 as c_int)
}
unsafe extern "system" fn read_ptr(p: *const ffi::VSFrameRef, k: c_int) -> *const u8 {
    frame(p, "samples").map_or(std::ptr::null(), |f| {
        let q = &f.planes[k as usize];
        q.4.as_ptr().add(q.3)
    })
}
fn api() -> *const ffi::VSAPI {
    static API: Mutex<usize> = Mutex::new(0);
    let mut g = API.lock().unwrap();
    if *g == 0 {
        let n = std::mem::size_of::<ffi::VSAPI>() / std::mem::size_of::<usize>();
        let all = vec![stub as extern "system" fn() as *const c_void as usize; n];
        let mut a: ffi::VSAPI = unsafe { std::ptr::read(all.as_ptr() as *const ffi::VSAPI) };
        a.getVideoInfo = get_video_info;
        a.getFrame = get_frame;
        a.freeFrame = free_frame;
        a.freeNode = free_node;
        a.cloneNodeRef = clone_node;
        a.getFrameFormat = frame_format;
        a.getFrameWidth = frame_width;
        a.getFrameHeight = frame_height;
        a.getStride = frame_stride;
        a.getReadPtr = read_ptr;
        *g = Box::into_raw(Box::new(a)) as usize;
    }
    *g as *const _
}
#[no_mangle]
pub extern "system" fn getVapourSynthAPI(v: c_int) -> *const ffi::VSAPI {
    vsscript_getVSApi2(v)
}
#[no_mangle]
pub extern "system" fn vsscript_getVSApi() -> *const ffi::VSAPI {
    api()
}
#[no_mangle]
pub extern "system" fn vsscript_getVSApi2(v: c_int) -> *const ffi::VSAPI {
    if v >> 16 == 3 && v & 0xffff <= 6 {
        api()
    } else {
        std::ptr::null()
    }
}
#[no_mangle]
pub extern "system" fn vsscript_getApiVersion() -> c_int {
    3 << 16 | 2
}
#[no_mangle]
pub extern "system" fn vsscript_init() -> c_int {
    1
}
#[no_mangle]
pub extern "system" fn vsscript_finalize() -> c_int {
    0
}
#[no_mangle]
pub extern "system" fn vsscript_createScript(h: *mut *mut ffi::VSScript) -> c_int {
    let p = Box::into_raw(Box::new(ScriptObj { clip: None, error: CString::default() })) as usize;
    world().scripts.insert(p);
    unsafe { *h = p as *mut _ };
    0
}
#[no_mangle]
pub extern "system" fn vsscript_freeScript(h: *mut ffi::VSScript) {
    let mut w = world();
    if h.is_null() {
        return;
    }
    if !w.scripts.remove(&(h as usize)) {
        w.misuse("a script is freed twice".into());
        return;
    }
    unsafe { drop(Box::from_raw(h as *mut ScriptObj)) };
}
#[no_mangle]
pub extern "system" fn vsscript_getError(h: *mut ffi::VSScript) -> *const c_char {
    unsafe { (*(h as *mut ScriptObj)).error.as_ptr() }
}
/// A Python string literal in double quotes, from just after the first quote.
fn python_string(s: &str) -> Option<(String, usize)> {
    let mut o = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => return Some((String::from_utf8(o).ok()?, i + 1)),
            b'\n' | b'\r' | 0 => return None,
            b'\\' => {
                i += 1;
                match b.get(i)? {
                    b'n' => o.push(10),
                    b'r' => o.push(13),
                    b't' => o.push(9),
                    b'a' => o.push(7),
                    b'b' => o.push(8),
                    b'f' => o.push(12),
                    b'v' => o.push(11),
                    c @ (b'\\' | b'"' | b'\'') => o.push(*c),
                    b'x' => {
                        let v = u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?;
                        o.extend(char::from(v).to_string().bytes());
                        i += 2;
                    }
                    b'u' => {
                        let v = u32::from_str_radix(s.get(i + 1..i + 5)?, 16).ok()?;
                        o.extend(char::from_u32(v)?.to_string().bytes());
                        i += 4;
                    }
                    c @ b'0'..=b'7' => o.extend(char::from(*c - b'0').to_string().bytes()),
                    b'\n' => {}
                    c => o.extend([b'\\', *c]),
                }
            }
            c => o.push(c),
        }
        i += 1;
    }
    None
}
/// Understands `#avh <clip>` scripts, and calls of the two source plugins assigned to an output.
fn evaluate(w: &mut World, s: &str) -> Result<String, String> {
    if let Some(n) = s.strip_prefix("#avh ") {
        let n = n.trim();
        return if w.clips.contains_key(n) { Ok(n.to_string()) } else { Err("Python exception: no such clip".into()) };
    }
    if !s.contains("import vapoursynth as vs") || !s.contains("clip.set_output(0)") {
        return Err("SyntaxError: the stand-in does not know this script".into());
    }
    for plugin in ["core.lsmas.LWLibavSource", "core.bs.VideoSource"] {
        let Some(i) = s.find(&format!("clip = {plugin}(source=\"")) else { continue };
        let rest = &s[i + plugin.len() + 16..];
        let Some((path, end)) = python_string(rest) else { return Err("SyntaxError: unterminated string literal".into()) };
        let tail = rest[end..].lines().next().unwrap_or("");
        let args = tail.trim_end();
        let ok = args == ")" || (plugin == "core.bs.VideoSource" && args.starts_with(", cachepath=\"") && args.ends_with("\")"));
        if !ok {
            return Err(format!("SyntaxError: invalid syntax after the path: {args}"));
        }
        w.plugin.push(plugin.to_string());
        return w.videos.get(&path).cloned().ok_or_else(|| format!("LWLibavSource: failed to open {path}"));
    }
    Err("AttributeError: no such function".into())
}
#[no_mangle]
pub extern "system" fn vsscript_evaluateScript(h: *mut *mut ffi::VSScript, script: *const c_char, _file: *const c_char, _flags: c_int) -> c_int {
    let mut w = world();
    let o = unsafe { &mut *(*h as *mut ScriptObj) };
    let s = unsafe { CStr::from_ptr(script) }.to_string_lossy().to_string();
    match evaluate(&mut w, &s) {
        Ok(c) => {
            o.clip = Some(c);
            0
        }
        Err(e) => {
            o.error = CString::new(e).unwrap();
            1
        }
    }
}
#[no_mangle]
pub extern "system" fn vsscript_evaluateFile(h: *mut *mut ffi::VSScript, file: *const c_char, flags: c_int) -> c_int {
    let p = unsafe { CStr::from_ptr(file) }.to_string_lossy().to_string();
    let s = CString::new(std::fs::read(p).unwrap_or_default()).unwrap_or_default();
    vsscript_evaluateScript(h, s.as_ptr(), file, flags)
}
#[no_mangle]
pub extern "system" fn vsscript_getOutput2(h: *mut ffi::VSScript, index: c_int, alpha: *mut *mut ffi::VSNodeRef) -> *mut ffi::VSNodeRef {
    let mut w = world();
    if !w.scripts.contains(&(h as usize)) {
        w.misuse("output of a freed script".into());
        return std::ptr::null_mut();
    }
    let o = unsafe { &*(h as *const ScriptObj) };
    let Some(name) = o.clip.clone() else { return std::ptr::null_mut() };
    let (no, al) = w.clips.get(&name).map_or((true, false), |c| (c.no_output, c.alpha));
    if no || index != 0 {
        return std::ptr::null_mut();
    }
    if !alpha.is_null() {
        unsafe { *alpha = if al { new_node(&mut w, &name) } else { std::ptr::null_mut() } };
    }
    new_node(&mut w, &name)
}
#[no_mangle]
pub extern "system" fn vsscript_getOutput(h: *mut ffi::VSScript, index: c_int) -> *mut ffi::VSNodeRef {
    vsscript_getOutput2(h, index, std::ptr::null_mut())
}
macro_rules! absent {
    ($($n:ident),*) => { $(#[no_mangle] pub extern "system" fn $n() { stub() })* };
}
absent!(vsscript_clearOutput, vsscript_getCore, vsscript_getVariable, vsscript_setVariable, vsscript_clearVariable, vsscript_clearEnvironment);

