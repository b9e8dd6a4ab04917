//! Y4M streams as byte strings, and anonymous in-memory files to hand them to path-based APIs.
use crate::ctx::Rng;
use crate::gen::*;
use v_frame::pixel::ChromaSampling;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tag {
    pub tag: &'static str,
    pub cs: ChromaSampling,
    pub depth: usize,
    /// chroma is filtered horizontally when read
    pub vertical: bool,
}
const fn t(tag: &'static str, cs: ChromaSampling, depth: usize, vertical: bool) -> Tag {
    Tag { tag, cs, depth, vertical }
}
pub const TAGS: [Tag; 14] = [
    t("420", Cs420, 8, false),
    t("420jpeg", Cs420, 8, false),
    t("420paldv", Cs420, 8, false),
    t("420mpeg2", Cs420, 8, true),
    t("420p10", Cs420, 10, false),
    t("420p12", Cs420, 12, false),
    t("422", Cs422, 8, true),
    t("422p10", Cs422, 10, true),
    t("422p12", Cs422, 12, true),
    t("444", Cs444, 8, false),
    t("444p10", Cs444, 10, false),
    t("444p12", Cs444, 12, false),
    t("mono", Cs400, 8, false),
    t("mono12", Cs400, 12, false),
];

pub fn frame_bytes(p: &Pic) -> Vec<u8> {
    let mut o = vec![];
    for b in &p.p {
        for v in &b.d {
            o.push(*v as u8);
            if p.depth > 8 {
                o.push((*v >> 8) as u8);
            }
        }
    }
    o
}
pub fn header(w: usize, h: usize, tag: &str, rate: (usize, usize)) -> String {
    format!("YUV4MPEG2 W{w} H{h} F{}:{} Ip A1:1 C{tag}\n", rate.0, rate.1)
}
pub fn stream(tag: &str, frames: &[Pic]) -> Vec<u8> {
    let mut o = header(frames[0].w, frames[0].h, tag, (25, 1)).into_bytes();
    for p in frames {
        o.extend_from_slice(b"FRAME\n");
        o.extend(frame_bytes(p));
    }
    o
}
/// Header with the parameters in random order, unknown extensions, doubled spaces.
pub fn odd_header(r: &mut Rng, w: usize, h: usize, tag: &str, rate: (usize, usize)) -> Vec<u8> {
    let mut ps = vec![format!("W{w}"), format!("H{h}")];
    let implied_tag = tag == "420" && r.chance(0.4);
    if !implied_tag {
        ps.push(format!("C{tag}"));
    }
    if rate != (25, 1) || r.chance(0.5) {
        ps.push(format!("F{}:{}", rate.0, rate.1));
    }
    for (s, p) in [("Ip", 0.5), ("It", 0.1), ("A1:1", 0.4), ("A0:0", 0.2), ("XYSCSS=420JPEG", 0.2), ("XCOLORRANGE=FULL", 0.1), ("Xanything_at-all", 0.2)] {
        if r.chance(p) {
            ps.push(s.into());
        }
    }
    for i in (1..ps.len()).rev() {
        ps.swap(i, r.below(i + 1));
    }
    let mut s = String::from("YUV4MPEG2");
    for p in ps {
        s.push(' ');
        if r.chance(0.05) {
            s.push(' ');
        }
        s.push_str(&p);
    }
    s.push('\n');
    s.into_bytes()
}

/// An anonymous file that can be opened by path and disappears with the value.
pub struct MemFile {
    fd: i32,
}
impl MemFile {
    pub fn new(data: &[u8]) -> MemFile {
        let fd = unsafe { libc::memfd_create(c"y4m".as_ptr(), libc::MFD_CLOEXEC) };
        assert!(fd >= 0, "HARNESS: memfd_create failed");
        let mut off = 0;
        while off < data.len() {
            let n = unsafe { libc::write(fd, data[off..].as_ptr().cast(), data.len() - off) };
            assert!(n > 0, "HARNESS: memfd write failed");
            off += n as usize;
        }
        MemFile { fd }
    }
    pub fn path(&self) -> String {
        format!("/proc/self/fd/{}", self.fd)
    }
}
impl Drop for MemFile {
    fn drop(&mut self) {
        unsafe { libc::close(self.fd) };
    }
}
/// A pipe fed by a thread in small, irregular pieces; readers see short reads.
pub struct Dripped {
    fd: i32,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Dripped {
    pub fn new(data: Vec<u8>, mut r: Rng) -> Dripped {
        let mut p = [0i32; 2];
        assert!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "HARNESS: pipe failed");
        let w = p[1];
        let h = std::thread::spawn(move || {
            let mut off = 0;
            while off < data.len() {
                let n = r.range(1, 700).min(data.len() - off);
                let k = unsafe { libc::write(w, data[off..].as_ptr().cast(), n) };
                if k <= 0 {
                    break;
                }
                off += k as usize;
                if r.chance(0.1) {
                    std::thread::yield_now();
                }
            }
            unsafe { libc::close(w) };
        });
        Dripped { fd: p[0], h: Some(h) }
    }
    pub fn path(&self) -> String {
        format!("/proc/self/fd/{}", self.fd)
    }
}
impl Drop for Dripped {
    fn drop(&mut self) {
        unsafe { libc::close(self.fd) };
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}
