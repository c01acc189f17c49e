//! Shared parts: random numbers, doubles in traces, hashes, metrics, frame construction.
use av_metrics::video::*;
use av_metrics::MetricsError;
use serde_json::{json, Value};
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(7);
    for p in parts {
        r.0 ^= *p;
        r.next();
        r.0 = r.0.rotate_left(17);
    }
    r.next()
}

/// A double as the signed halves of its bit pattern
pub fn f64v(x: f64) -> Value {
    let b = x.to_bits();
    json!([(b >> 32) as u32 as i32, b as u32 as i32])
}

pub fn planar(m: PlanarMetrics) -> Value {
    json!([f64v(m.y), f64v(m.u), f64v(m.v), f64v(m.avg)])
}

pub fn scalar(m: f64) -> Value {
    json!([f64v(m)])
}

/// The class of an error
pub fn class(e: &(dyn Error + 'static)) -> &'static str {
    match e.downcast_ref::<MetricsError>() {
        Some(MetricsError::MalformedInput { .. }) => "malformed",
        Some(MetricsError::UnsupportedInput { .. }) => "unsupported",
        Some(MetricsError::InputMismatch { .. }) => "mismatch",
        Some(MetricsError::VideoError { .. }) => "video",
        Some(MetricsError::SendError { .. }) => "send",
        Some(MetricsError::ProcessError { .. }) => "process",
        _ => "other",
    }
}

pub fn outcome(r: Result<Value, Box<dyn Error>>) -> Value {
    match r {
        Ok(v) => json!({"kind": "ok", "score": v, "class": ""}),
        Err(e) => {
            let mut msg = e.to_string();
            let cut = (0..=msg.len().min(120)).rev().find(|i| msg.is_char_boundary(*i)).unwrap();
            msg.truncate(cut);
            json!({"kind": "err", "score": [], "class": class(e.as_ref()), "msg": msg})
        }
    }
}

/// Runs the code under test: a panic is an outcome like any other
pub fn guarded<F: FnOnce() -> Result<Value, Box<dyn Error>>>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => outcome(r),
        Err(_) => json!({"kind": "panic", "score": [], "class": "panic"}),
    }
}

pub fn sampling(cs: &str) -> ChromaSampling {
    match cs {
        "420" => ChromaSampling::Cs420,
        "422" => ChromaSampling::Cs422,
        "444" => ChromaSampling::Cs444,
        "400" => ChromaSampling::Cs400,
        _ => panic!("chroma sampling {cs}"),
    }
}

pub fn sampling_name(cs: ChromaSampling) -> &'static str {
    match cs {
        ChromaSampling::Cs420 => "420",
        ChromaSampling::Cs422 => "422",
        ChromaSampling::Cs444 => "444",
        ChromaSampling::Cs400 => "400",
    }
}

pub fn position_name(p: ChromaSamplePosition) -> &'static str {
    match p {
        ChromaSamplePosition::Unknown => "unknown",
        ChromaSamplePosition::Vertical => "vertical",
        ChromaSamplePosition::Colocated => "colocated",
        ChromaSamplePosition::Bilateral => "bilateral",
        ChromaSamplePosition::Interpolated => "interpolated",
    }
}

pub fn decimation(cs: ChromaSampling) -> (usize, usize) {
    match cs {
        ChromaSampling::Cs420 => (1, 1),
        ChromaSampling::Cs422 => (1, 0),
        _ => (0, 0),
    }
}

/// Width and height of plane p
pub fn dims(w: usize, h: usize, cs: ChromaSampling, p: usize) -> (usize, usize) {
    let (dx, dy) = decimation(cs);
    match (p, cs) {
        (0, _) => (w, h),
        (_, ChromaSampling::Cs400) => (0, 0),
        _ => ((w + dx) >> dx, (h + dy) >> dy),
    }
}

/// A frame without padding beyond what the allocation of planes implies
pub fn plain_frame<T: Pixel>(w: usize, h: usize, cs: ChromaSampling) -> Frame<T> {
    let (dx, dy) = decimation(cs);
    let plane = |p| {
        let (pw, ph) = dims(w, h, cs, p);
        if p == 0 {
            Plane::new(pw, ph, 0, 0, 0, 0)
        } else {
            Plane::new(pw, ph, dx, dy, 0, 0)
        }
    };
    Frame { planes: [plane(0), plane(1), plane(2)] }
}

/// Index of a visible sample in the buffer of a plane
pub fn at<T: Pixel>(p: &Plane<T>, x: usize, y: usize) -> usize {
    (p.cfg.yorigin + y) * p.cfg.stride + p.cfg.xorigin + x
}

pub fn val<T: Pixel>(v: T) -> i32 {
    i32::cast_from(v)
}

pub fn visible<T: Pixel>(p: &Plane<T>) -> Vec<Vec<i32>> {
    (0..p.cfg.height)
        .map(|y| (0..p.cfg.width).map(|x| val(p.data[at(p, x, y)])).collect())
        .collect()
}

/// The visible samples as the specification writes them: a plane without samples is empty
pub fn visible_json<T: Pixel>(p: &Plane<T>) -> Value {
    if p.cfg.width == 0 {
        json!([])
    } else {
        json!(visible(p))
    }
}

/// An identifier of the visible content of a plane, in the 32 bits of TLC's integers
pub fn content_id<T: Pixel>(p: &Plane<T>) -> i32 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut add = |v: u64| {
        h ^= v;
        h = h.wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    };
    add(p.cfg.width as u64);
    add(p.cfg.height as u64);
    for y in 0..p.cfg.height {
        for x in 0..p.cfg.width {
            add(val(p.data[at(p, x, y)]) as u64);
        }
    }
    (h ^ (h >> 32)) as u32 as i32
}

/// An identifier of everything a plane consists of
pub fn whole_id<T: Pixel>(p: &Plane<T>) -> i32 {
    let mut h = 0x8422_2325_cbf2_9ce4u64;
    let c = &p.cfg;
    for v in [c.stride, c.alloc_height, c.width, c.height, c.xdec, c.ydec, c.xpad, c.ypad, c.xorigin, c.yorigin] {
        h = (h ^ v as u64).wrapping_mul(0x1000_0000_01b3);
    }
    for v in p.data.iter() {
        h = (h ^ val(*v) as u64).wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    (h ^ (h >> 32)) as u32 as i32
}

pub fn frame_metric<T: Pixel>(
    m: &str,
    a: &Frame<T>,
    b: &Frame<T>,
    depth: usize,
    cs: ChromaSampling,
) -> Result<Value, Box<dyn Error>> {
    match m {
        // The library offers no APSNR of a frame, it is the PSNR
        "psnr" | "apsnr" => psnr::calculate_frame_psnr(a, b, depth, cs).map(planar),
        "ssim" => ssim::calculate_frame_ssim(a, b, depth, cs).map(planar),
        "msssim" => ssim::calculate_frame_msssim(a, b, depth, cs).map(planar),
        "psnrhvs" => psnr_hvs::calculate_frame_psnr_hvs(a, b, depth, cs).map(planar),
        "ciede" => ciede::calculate_frame_ciede(a, b, depth, cs).map(scalar),
        "ciede_nosimd" => ciede::calculate_frame_ciede_nosimd(a, b, depth, cs).map(scalar),
        _ => panic!("metric {m}"),
    }
}

pub fn video_metric<D: decode::Decoder, F: Fn(usize) + Send>(
    m: &str,
    a: &mut D,
    b: &mut D,
    limit: Option<usize>,
    cb: F,
) -> Result<Value, Box<dyn Error>> {
    match m {
        "psnr" => psnr::calculate_video_psnr(a, b, limit, cb).map(planar),
        "apsnr" => psnr::calculate_video_apsnr(a, b, limit, cb).map(planar),
        "ssim" => ssim::calculate_video_ssim(a, b, limit, cb).map(planar),
        "msssim" => ssim::calculate_video_msssim(a, b, limit, cb).map(planar),
        "psnrhvs" => psnr_hvs::calculate_video_psnr_hvs(a, b, limit, cb).map(planar),
        "ciede" => ciede::calculate_video_ciede(a, b, limit, cb).map(scalar),
        "ciede_nosimd" => ciede::calculate_video_ciede_nosimd(a, b, limit, cb).map(scalar),
        _ => panic!("metric {m}"),
    }
}

pub fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("no integer {k} in {v}"))
}

pub fn us(v: &Value, k: &str) -> usize {
    int(v, k) as usize
}

pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("no string {k} in {v}"))
}

pub fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}
