//! Sessions with two frames: carries out the operations of FrameSession.tla on real frames and
//! records what the metrics say about them.
use crate::pipe::{Clip, ClipDecoder};
use crate::util::*;
use av_metrics::video::decode::*;
use av_metrics::video::*;
use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};

#[derive(Clone)]
struct Layout {
    xpad: usize,
    ypad: usize,
    /// allocated beyond the visible width and height
    ex: usize,
    ey: usize,
    /// chroma planes know about their decimation
    dec: bool,
    /// the third plane is laid out differently by so many samples
    skew: usize,
}

impl Layout {
    fn parse(v: &Value) -> Self {
        Layout {
            xpad: us(v, "xpad"),
            ypad: us(v, "ypad"),
            ex: us(v, "ex"),
            ey: us(v, "ey"),
            dec: v["dec"].as_bool().unwrap(),
            skew: us(v, "skew"),
        }
    }
    fn frame<T: Pixel>(&self, w: usize, h: usize, cs: ChromaSampling) -> Frame<T> {
        let plane = |p: usize| {
            let (pw, ph) = dims(w, h, cs, p);
            let (dx, dy) = if p == 0 { (0, 0) } else { decimation(cs) };
            if pw == 0 {
                return Plane::new(0, 0, 0, 0, 0, 0);
            }
            let (cx, cy) = if self.dec { (dx, dy) } else { (0, 0) };
            let skew = if p == 2 { self.skew } else { 0 };
            let mut pl = Plane::new(
                pw + self.ex + skew,
                ph + self.ey + skew,
                cx,
                cy,
                (self.xpad >> dx) + skew,
                (self.ypad >> dy) + skew,
            );
            pl.cfg.width = pw;
            pl.cfg.height = ph;
            pl
        };
        Frame { planes: [plane(0), plane(1), plane(2)] }
    }
}

/// Fills everything that is not visible
fn scribble<T: Pixel>(f: &mut Frame<T>, depth: usize, seed: u64) {
    let mut r = Rng::new(seed);
    let n = 1u64 << depth;
    for p in f.planes.iter_mut() {
        if p.cfg.width == 0 {
            continue;
        }
        let v = visible(p);
        for s in p.data.iter_mut() {
            *s = T::cast_from(r.below(n) as i32);
        }
        for (y, row) in v.iter().enumerate() {
            for (x, s) in row.iter().enumerate() {
                let k = at(p, x, y);
                p.data[k] = T::cast_from(*s);
            }
        }
    }
}

fn moved<T: Pixel>(f: &Frame<T>, l: &Layout, w: usize, h: usize, cs: ChromaSampling) -> Frame<T> {
    let mut g = l.frame::<T>(w, h, cs);
    for p in 0..3 {
        for (y, row) in visible(&f.planes[p]).iter().enumerate() {
            for (x, s) in row.iter().enumerate() {
                let k = at(&g.planes[p], x, y);
                g.planes[p].data[k] = T::cast_from(*s);
            }
        }
    }
    g
}

fn fill<T: Pixel>(frames: &mut [Frame<T>; 2], op: &Value, depth: usize) {
    let f = us(op, "f") - 1;
    let p = us(op, "p") - 1;
    let seed = us(op, "seed") as u64;
    let mut r = Rng::new(seed);
    let max = (1i64 << depth) - 1;
    let unit = 1i64 << (depth - 8);
    let other = visible(&frames[1 - f].planes[p]);
    let pl = &mut frames[f].planes[p];
    let (w, h) = (pl.cfg.width, pl.cfg.height);
    let kind = st(op, "kind");
    let (a, b) = (r.below(max as u64 + 1) as i64, r.below(max as u64 + 1) as i64);
    let (fx, fy) = (1 + r.below(9) as i64, 1 + r.below(9) as i64);
    // The sample which differs of the kind "one": the corners and edges are as likely as the rest
    let ox = if r.below(2) == 0 { w.saturating_sub(1) } else { r.below(w.max(1) as u64) as usize };
    let oy = if r.below(2) == 0 { h.saturating_sub(1) } else { r.below(h.max(1) as u64) as usize };
    for y in 0..h {
        for x in 0..w {
            let (xi, yi) = (x as i64, y as i64);
            let o = other[y][x] as i64;
            let v = match kind {
                "noise" => r.below(max as u64 + 1) as i64,
                "flat" => a,
                "zero" => 0,
                "max" => max,
                "grey" => 128 * unit,
                "ramp" => (a + xi * fx * unit + yi * fy * unit) % (max + 1),
                "waves" => {
                    let t = ((xi * fx) as f64 * 0.21).sin() + ((yi * fy) as f64 * 0.17).cos();
                    ((t + 2.0) * 0.25 * max as f64) as i64
                }
                "extreme" => max * r.below(2) as i64,
                // The extremes of a coefficient of the cosine transform
                "basis" => {
                    let c = |i: i64, f: i64| ((2 * i + 1) as f64 * (f % 8) as f64 * std::f64::consts::PI / 16.0).cos();
                    if c(xi, fx) * c(yi, fy) >= 0.0 { max } else { 0 }
                }
                "dark" => r.below(4 * unit as u64) as i64,
                "video" => 16 * unit + r.below(220 * unit as u64) as i64,
                "edge" => {
                    if xi * fx > yi * fy + 3 {
                        a
                    } else {
                        b
                    }
                }
                "near" => o + r.below(5) as i64 - 2,
                "lossy" => o + (r.below(41) as i64 - 20) * unit,
                "shift" => o + fx * unit,
                "inverse" => max - o,
                "blur" => {
                    let x2 = (x + 1).min(w - 1);
                    (o + other[y][x2] as i64) / 2
                }
                "one" => {
                    if x == ox && y == oy {
                        if o == a {
                            max - o
                        } else {
                            a
                        }
                    } else {
                        o
                    }
                }
                "lastcol" => if x + 1 == w { max - o } else { o },
                "lastrow" => if y + 1 == h { max - o } else { o },
                "copy" => o,
                k => panic!("pattern {k}"),
            };
            let k = at(pl, x, y);
            pl.data[k] = T::cast_from(v.clamp(0, max) as i32);
        }
    }
}

struct Repeat<'a, T: Pixel> {
    frame: &'a Frame<T>,
    left: usize,
    depth: usize,
    cs: ChromaSampling,
}

impl<T: Pixel> Decoder for Repeat<'_, T> {
    fn read_video_frame<U: Pixel>(&mut self) -> Option<Frame<U>> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        // T and U are the same type
        let any: Box<dyn std::any::Any> = Box::new(self.frame.clone());
        Some(*any.downcast::<Frame<U>>().expect("sample type"))
    }
    fn get_bit_depth(&self) -> usize {
        self.depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.frame.planes[0].cfg.width,
            height: self.frame.planes[0].cfg.height,
            bit_depth: self.depth,
            chroma_sampling: self.cs,
            ..Default::default()
        }
    }
}

/// Some other comparisons, whose results do not matter
fn elsewhere(seed: u64, m: &str, depth: usize, w: usize, h: usize, cs: ChromaSampling) {
    let clip = |d| Clip {
        d,
        len: 3,
        w,
        h,
        depth,
        cs,
        seed,
        uniform: false,
        mixed: false,
        fail: vec![],
        kind: String::new(),
        dies: None,
        delay: 0,
        period: 0,
        grow: (0, 0, 0),
    };
    let dec = |d| ClipDecoder { clip: clip(d), calls: 0, log: None, rng: Rng::new(seed), busy: None };
    let _ = guarded(|| video_metric(m, &mut dec(1), &mut dec(2), None, |_| {}));
}

/// A plane of another size, with samples like those of the given one
fn resized<T: Pixel>(p: &Plane<T>, w: usize, h: usize) -> Plane<T> {
    let mut q = Plane::new(w, h, p.cfg.xdec, p.cfg.ydec, p.cfg.xpad, p.cfg.ypad);
    for y in 0..h {
        for x in 0..w {
            let (i, j) = (at(&q, x, y), at(p, x % p.cfg.width, y % p.cfg.height));
            q.data[i] = p.data[j];
        }
    }
    q
}

fn retyped<T: Pixel, U: Pixel>(f: &Frame<T>, l: &Layout, w: usize, h: usize, cs: ChromaSampling) -> Frame<U> {
    let mut g = l.frame::<U>(w, h, cs);
    for (p, q) in f.planes.iter().zip(g.planes.iter_mut()) {
        for (y, row) in visible(p).iter().enumerate() {
            for (x, s) in row.iter().enumerate() {
                let k = at(q, x, y);
                q.data[k] = U::cast_from(*s & 255);
            }
        }
    }
    g
}

/// Frames which do not match, or not their bit depth
fn mismatch<T: Pixel>(
    frames: &[Frame<T>; 2],
    op: &Value,
    l: &Layout,
    (w, h): (usize, usize),
    depth: usize,
    cs: ChromaSampling,
) -> Value {
    let m = st(op, "m");
    let by = us(op, "by");
    let less = op["less"].as_bool().unwrap();
    let other = |n: usize| if less && n > by { n - by } else { n + by };
    let f = us(op, "f") - 1;
    let mut pair = frames.clone();
    let change = |p: &mut Plane<T>, cw: bool, ch: bool| {
        if p.cfg.width > 0 {
            let (pw, ph) = (p.cfg.width, p.cfg.height);
            *p = resized(p, if cw { other(pw) } else { pw }, if ch { other(ph) } else { ph });
        }
    };
    match st(op, "kind") {
        "type" => {
            return if depth > 8 {
                let r = |f: &Frame<T>| retyped::<T, u8>(f, l, w, h, cs);
                guarded(|| frame_metric(m, &r(&frames[0]), &r(&frames[1]), depth, cs))
            } else {
                let r = |f: &Frame<T>| retyped::<T, u16>(f, l, w, h, cs);
                guarded(|| frame_metric(m, &r(&frames[0]), &r(&frames[1]), depth, cs))
            };
        }
        "all" => pair[f].planes.iter_mut().for_each(|p| change(p, true, true)),
        k => {
            let i = "yuv".find(&k[..1]).unwrap();
            change(&mut pair[f].planes[i], &k[1..] == "w", &k[1..] == "h");
        }
    }
    guarded(|| frame_metric(m, &pair[0], &pair[1], depth, cs))
}

/// The measurement in a process of its own
fn fresh<T: Pixel>(
    m: &str,
    frames: &[Frame<T>; 2],
    l: &Layout,
    (w, h): (usize, usize),
    depth: usize,
    cs: &str,
) -> Value {
    let data: Vec<Vec<Vec<i32>>> = frames
        .iter()
        .map(|f| f.planes.iter().map(|p| p.data.iter().map(|s| val(*s)).collect()).collect())
        .collect();
    let req = json!({"m": m, "w": w, "h": h, "depth": depth, "cs": cs, "data": data,
        "layout": {"xpad": l.xpad, "ypad": l.ypad, "ex": l.ex, "ey": l.ey, "dec": l.dec, "skew": l.skew}});
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("fresh")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("process");
    child.stdin.take().unwrap().write_all(req.to_string().as_bytes()).expect("pipe");
    let out = child.wait_with_output().expect("process");
    serde_json::from_slice(&out.stdout)
        .unwrap_or_else(|_| json!({"kind": "crash", "score": [], "class": "crash"}))
}

/// The other end of `fresh`
pub fn answer(req: &Value) -> Value {
    fn go<T: Pixel>(req: &Value) -> Value {
        let cs = sampling(st(req, "cs"));
        let (w, h) = (us(req, "w"), us(req, "h"));
        let l = Layout::parse(&req["layout"]);
        let frame = |k: usize| {
            let mut f = l.frame::<T>(w, h, cs);
            for (p, pl) in f.planes.iter_mut().enumerate() {
                for (s, v) in pl.data.iter_mut().zip(req["data"][k][p].as_array().unwrap()) {
                    *s = T::cast_from(v.as_i64().unwrap() as i32);
                }
            }
            f
        };
        guarded(|| frame_metric(st(req, "m"), &frame(0), &frame(1), us(req, "depth"), cs))
    }
    if us(req, "depth") > 8 {
        go::<u16>(req)
    } else {
        go::<u8>(req)
    }
}

fn cropped<T: Pixel>(p: &Plane<T>, crop: usize, i: usize, cs: ChromaSampling) -> Value {
    if crop == 0 || p.cfg.width == 0 {
        return visible_json(p);
    }
    let (cw, ch) = dims(crop, crop, cs, i);
    let v = visible(p);
    assert!(v.iter().flatten().all(|s| *s == v[0][0]), "not uniform");
    json!(v[..ch].iter().map(|r| &r[..cw]).collect::<Vec<_>>())
}

fn session<T: Pixel>(s: &Value) -> Value {
    let (w, h, depth) = (us(s, "w"), us(s, "h"), us(s, "depth"));
    let cs = sampling(st(s, "cs"));
    // Uniform frames are represented by a part of them
    let crop = us(s, "crop");
    let with_samples = s["samples"].as_bool().unwrap();
    let mut layout = Layout::parse(&s["layout"]);
    let mut frames = [layout.frame::<T>(w, h, cs), layout.frame::<T>(w, h, cs)];
    let mut ev: Vec<Value> = vec![];
    let start = us(s, "seed") as u64;
    scribble(&mut frames[0], depth, start);
    scribble(&mut frames[1], depth, start + 1);
    for op in s["ops"].as_array().unwrap() {
        let name = st(op, "op");
        let mut results: Vec<Value> = vec![];
        match name {
            "fill" => fill(&mut frames, op, depth),
            "scribble" => {
                let f = us(op, "f") - 1;
                scribble(&mut frames[f], depth, us(op, "seed") as u64);
            }
            "relayout" => {
                layout = Layout::parse(&op["layout"]);
                for (i, f) in frames.iter_mut().enumerate() {
                    *f = moved(f, &layout, w, h, cs);
                    scribble(f, depth, us(op, "seed") as u64 + i as u64);
                }
            }
            "mismatch" => results.push(mismatch(&frames, op, &layout, (w, h), depth, cs)),
            "swap" => frames.swap(0, 1),
            "measure" => {
                let m = st(op, "m");
                let [a, b] = &frames;
                let reps = us(op, "reps");
                let one = || guarded(|| frame_metric(m, a, b, depth, cs));
                match st(op, "via") {
                    "frame" => results.push(one()),
                    "pool" => results.push(pool(us(op, "t")).install(one)),
                    "noise" => {
                        // Other comparisons first
                        let mut r = Rng::new(us(op, "seed") as u64);
                        let ms = ["psnr", "ssim", "msssim", "psnrhvs", "ciede", m];
                        for _ in 0..3 {
                            // Of formats which share something with this one, or nothing
                            let more = 1 + r.below(130) as usize;
                            let (ow, oh) = match r.below(6) {
                                0 => (h, w),
                                1 => (w, h + more),
                                2 => (w + more, h),
                                3 => (h + more, w),
                                4 => (w, (h + 1) / 2),
                                _ => (16 + 2 * r.below(20) as usize, 32 + 2 * r.below(20) as usize),
                            };
                            elsewhere(
                                r.next(),
                                if r.below(3) == 0 { ms[r.below(6) as usize] } else { m },
                                if r.below(2) == 0 { depth } else { [8, 10, 12][r.below(3) as usize] },
                                ow,
                                oh,
                                [cs, ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444]
                                    [r.below(4) as usize],
                            );
                        }
                        results.push(one());
                    }
                    "storm" => {
                        let t = us(op, "t");
                        let shared = (t > 0).then(|| pool(t));
                        let r: Vec<Value> = std::thread::scope(|sc| {
                            let hs: Vec<_> = (0..reps)
                                .map(|i| {
                                    let shared = &shared;
                                    let one = &one;
                                    sc.spawn(move || {
                                        if i % 2 == 1 {
                                            elsewhere(
                                                i as u64,
                                                m,
                                                if depth > 8 { 8 } else { 10 },
                                                40,
                                                48,
                                                ChromaSampling::Cs444,
                                            );
                                        }
                                        match shared {
                                            Some(p) => p.install(one),
                                            None => one(),
                                        }
                                    })
                                })
                                .collect();
                            hs.into_iter().map(|h| h.join().unwrap()).collect()
                        });
                        results.extend(r);
                    }
                    "crowd" => {
                        // Comparisons of videos, at the same time
                        let t = us(op, "t");
                        let shared = (t > 0).then(|| pool(t));
                        let r: Vec<Value> = std::thread::scope(|sc| {
                            let hs: Vec<_> = (0..reps)
                                .map(|i| {
                                    let shared = &shared;
                                    sc.spawn(move || {
                                        let dec = |f| Repeat { frame: f, left: 1 + (i * 5) % 7, depth, cs };
                                        let go = || {
                                            guarded(|| video_metric(m, &mut dec(a), &mut dec(b), None, |_| {}))
                                        };
                                        let other = || {
                                            elsewhere(i as u64, m, if depth > 8 { 8 } else { 10 }, 32, 34, ChromaSampling::Cs422)
                                        };
                                        match shared {
                                            Some(p) if i % 3 == 1 => p.install(|| rayon::join(other, go).1),
                                            Some(p) => p.install(go),
                                            None => go(),
                                        }
                                    })
                                })
                                .collect();
                            hs.into_iter().map(|h| h.join().unwrap()).collect()
                        });
                        results.extend(r);
                    }
                    "video" => {
                        let dec = |f| Repeat { frame: f, left: reps, depth, cs };
                        let go = || {
                            guarded(|| video_metric(m, &mut dec(a), &mut dec(b), None, |_| {}))
                        };
                        let t = us(op, "t");
                        results.push(if t > 0 { pool(t).install(go) } else { go() });
                    }
                    "fresh" => results.push(fresh(m, &frames, &layout, (w, h), depth, st(s, "cs"))),
                    v => panic!("via {v}"),
                }
            }
            o => panic!("operation {o}"),
        }
        let mut e = op.clone();
        e["content"] = json!(frames
            .iter()
            .map(|f| f.planes.iter().map(content_id).collect::<Vec<_>>())
            .collect::<Vec<_>>());
        e["whole"] = json!(frames
            .iter()
            .map(|f| f.planes.iter().map(whole_id).collect::<Vec<_>>())
            .collect::<Vec<_>>());
        e["results"] = json!(results);
        let def = name == "measure" && op["def"].as_bool().unwrap();
        e["samples"] = if def && with_samples {
            json!(frames
                .iter()
                .map(|f| (0..3).map(|p| cropped(&f.planes[p], crop, p, cs)).collect::<Vec<_>>())
                .collect::<Vec<_>>())
        } else {
            json!([])
        };
        ev.push(e);
    }
    json!(ev)
}

pub fn run(s: &Value) -> Value {
    let ev = if us(s, "depth") > 8 { session::<u16>(s) } else { session::<u8>(s) };
    let mut scn = s.clone();
    scn.as_object_mut().unwrap().remove("ops");
    json!({"id": s["id"], "scn": scn, "ev": ev})
}
