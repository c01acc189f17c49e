//! Comparisons of two clips: runs scenarios of the specification Compare.tla on the real
//! calculate_video_* functions and records what can be observed of them.
use crate::util::*;
use av_metrics::video::decode::*;
use av_metrics::video::*;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

/// Counts the allocations which have the size of the luma plane of the frames in use
pub struct Counting;
static LUMA: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
/// All bytes in use
static BYTES: AtomicI64 = AtomicI64::new(0);

/// The planes of monochrome frames are allocations of no bytes
fn sized(l: Layout) -> Layout {
    Layout::from_size_align(l.size().max(1), l.align()).unwrap()
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() == 64 && l.size() == LUMA.load(SeqCst) {
            LIVE.fetch_add(1, SeqCst);
        }
        BYTES.fetch_add(l.size() as i64, SeqCst);
        System.alloc(sized(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() == 64 && l.size() == LUMA.load(SeqCst) {
            LIVE.fetch_sub(1, SeqCst);
        }
        BYTES.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, sized(l))
    }
}

#[derive(Clone)]
pub struct Clip {
    pub d: usize,
    pub len: usize,
    pub w: usize,
    pub h: usize,
    pub depth: usize,
    pub cs: ChromaSampling,
    pub seed: u64,
    pub uniform: bool,
    /// Some pairs are equal and others quite different
    pub mixed: bool,
    /// pairs which cannot be measured, and in which way
    pub fail: Vec<usize>,
    pub kind: String,
    pub dies: Option<usize>,
    pub delay: u64,
    /// The contents begin anew after so many frames, if not zero
    pub period: usize,
    /// From which frame on the frames are larger, if not zero, and by how much
    pub grow: (usize, usize, usize),
}

impl Clip {
    fn shown(&self, i: usize) -> usize {
        if self.period > 0 {
            (i - 1) % self.period + 1
        } else {
            i
        }
    }

    /// The value of the uniform plane p of frame i
    pub fn value(&self, i: usize, p: usize) -> i32 {
        let max = (1u64 << self.depth) - 1;
        (mix(&[self.seed, self.d as u64, i as u64, p as u64]) % (max + 1)) as i32
    }

    fn size(&self, i: usize) -> (usize, usize) {
        let (from, dw, dh) = self.grow;
        if from > 0 && i >= from {
            (self.w + dw, self.h + dh)
        } else {
            (self.w, self.h)
        }
    }

    pub fn frame<T: Pixel>(&self, i: usize) -> Frame<T> {
        let (fw, fh) = self.size(i);
        let mut f = plain_frame::<T>(fw, fh, self.cs);
        if self.d == 2 && self.fail.contains(&i) {
            let (dx, dy) = decimation(self.cs);
            let c = |p: usize, ew: usize, eh: usize| {
                let (w, h) = dims(fw, fh, self.cs, p);
                let (dx, dy) = if p == 0 { (0, 0) } else { (dx, dy) };
                Plane::new(w + ew, h + eh, dx, dy, 0, 0)
            };
            match self.kind.as_str() {
                "yw" => f.planes[0] = c(0, 1, 0),
                "yh" => f.planes[0] = c(0, 0, 1),
                "uw" => f.planes[1] = c(1, 1, 0),
                "uh" => f.planes[1] = c(1, 0, 1),
                "vw" => f.planes[2] = c(2, 1, 0),
                "vh" => f.planes[2] = c(2, 0, 1),
                // The metric does not support the pair, although it matches
                "none" => (),
                "all" => f = plain_frame::<T>(fw + 8, fh + 8, self.cs),
                k => panic!("failure {k}"),
            }
        }
        let i = self.shown(i);
        let max = (1i32 << self.depth) - 1;
        let spread = if self.mixed { [0, 0, 1, 4, max / 4, max][(mix(&[self.seed, i as u64, 5]) % 6) as usize] } else { 4 };
        for p in 0..3 {
            let v = self.value(i, p);
            // Both clips of a pair share most of their texture
            let mut shared = Rng::new(mix(&[self.seed, i as u64, p as u64, 77]));
            let mut own = Rng::new(mix(&[self.seed, i as u64, p as u64, self.d as u64]));
            let pl = &mut f.planes[p];
            for y in 0..pl.cfg.height {
                for x in 0..pl.cfg.width {
                    let s = if self.uniform {
                        v
                    } else {
                        let t = shared.below(max as u64 + 1) as i32;
                        let e = own.below(2 * spread as u64 + 1) as i32 - spread;
                        (t + e).clamp(0, max)
                    };
                    let k = at(pl, x, y);
                    pl.data[k] = T::cast_from(s);
                }
            }
        }
        f
    }
}

/// One observation.  Observing does not allocate.
#[derive(Clone, Copy)]
struct Ev {
    ev: &'static str,
    d: usize,
    some: bool,
    k: i64,
    live: i64,
    kib: i64,
}

pub struct Log {
    ev: Mutex<Vec<Ev>>,
    per_frame: i64,
    before: i64,
    /// Whether the frames in memory can be counted, since all have the same size
    counting: bool,
}

impl Log {
    fn live(&self) -> i64 {
        let n = LIVE.load(SeqCst);
        (n + self.per_frame - 1).div_euclid(self.per_frame)
    }
    fn add(&self, ev: &'static str, d: usize, some: bool, k: i64) {
        let mut e = self.ev.lock().unwrap();
        let kib = (BYTES.load(SeqCst) - self.before).max(0) / 1024;
        let live = match self.counting {
            true => self.live(),
            false if ev == "return" => 0,
            false => 1 << 20,
        };
        e.push(Ev { ev, d, some, k, live, kib });
    }
    /// What was observed. With `short`, rounds of a read from either decoder and a call of the callback, with
    /// consecutive numbers, are one event which tells how many there were.
    fn events(&self, short: bool) -> Value {
        let all = self.ev.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let mut out: Vec<Value> = vec![];
        let mut i = 0;
        while i < all.len() {
            let mut count = 0;
            while let Some([a, b, c]) = all.get(i + 3 * count..i + 3 * count + 3) {
                let round = short && a.ev == "read" && a.d == 1 && a.some && b.ev == "read" && b.d == 2 && b.some && c.ev == "cb";
                if !round || c.k != all[i + 2].k + count as i64 {
                    break;
                }
                count += 1;
            }
            if count > 1 {
                out.push(json!({"ev": "rounds", "d": 0, "some": true, "k": all[i + 2].k, "count": count, "live": 0, "kib": 0}));
                i += 3 * count;
            } else {
                let e = &all[i];
                out.push(json!({"ev": e.ev, "d": e.d, "some": e.some, "k": e.k, "live": e.live, "kib": e.kib}));
                i += 1;
            }
        }
        json!(out)
    }
}

pub struct ClipDecoder {
    pub clip: Clip,
    pub calls: usize,
    pub log: Option<Arc<Log>>,
    pub rng: Rng,
    /// All workers of the pool are given something else to do at the first call, for so long
    pub busy: Option<u64>,
}

/// Pauses by profile: 0 none, 1 sometimes, 2 always a little, 3 bursts, 4 a long one, 1000000 + n a very long one at call n
pub fn pause(profile: u64, rng: &mut Rng, calls: usize) {
    let us = match profile {
        0 => 0,
        1 => [0, 0, 0, 50, 1000][rng.below(5) as usize],
        2 => 300,
        3 => {
            if calls % 7 == 0 {
                3000
            } else {
                0
            }
        }
        4 => {
            if calls == 3 {
                2_500_000
            } else {
                0
            }
        }
        n if n > 1_000_000 => {
            if calls as u64 == n - 1_000_000 {
                6_500_000
            } else {
                0
            }
        }
        k => k,
    };
    if us > 0 {
        std::thread::sleep(Duration::from_micros(us));
    }
}

impl Decoder for ClipDecoder {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        self.calls += 1;
        pause(self.clip.delay, &mut self.rng, self.calls);
        if let Some(ms) = self.busy.take() {
            rayon::spawn_broadcast(move |_| std::thread::sleep(Duration::from_millis(ms)));
        }
        if self.clip.dies == Some(self.calls) {
            if let Some(l) = &self.log {
                l.add("panic", self.clip.d, false, 0);
            }
            panic!("decoder");
        }
        let f = (self.calls <= self.clip.len).then(|| self.clip.frame::<T>(self.calls));
        if let Some(l) = &self.log {
            l.add("read", self.clip.d, f.is_some(), 0);
        }
        f
    }
    fn get_bit_depth(&self) -> usize {
        self.clip.depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.clip.w,
            height: self.clip.h,
            bit_depth: self.clip.depth,
            chroma_sampling: self.clip.cs,
            // The rest differs between the videos, and means nothing to the comparison
            chroma_sample_position: [
                ChromaSamplePosition::Unknown,
                ChromaSamplePosition::Vertical,
                ChromaSamplePosition::Colocated,
                ChromaSamplePosition::Bilateral,
            ][(mix(&[self.clip.seed, self.clip.d as u64, 90]) % 4) as usize],
            time_base: Rational::new(
                mix(&[self.clip.seed, self.clip.d as u64, 91]) % 4,
                mix(&[self.clip.seed, self.clip.d as u64, 92]) % 3,
            ),
            luma_padding: (mix(&[self.clip.seed, self.clip.d as u64, 93]) % 3) as usize * 8,
        }
    }
}

fn pair_results<T: Pixel>(m: &str, a: &Clip, b: &Clip, n: usize) -> Value {
    let r: Vec<Value> = (1..=n)
        .map(|i| {
            guarded(|| frame_metric(m, &a.frame::<T>(i), &b.frame::<T>(i), a.depth, a.cs))
        })
        .collect();
    json!(r)
}

pub fn run(s: &Value, watchdog: Duration) -> (Value, bool) {
    let m = st(s, "m").to_owned();
    let cs = sampling(st(s, "cs"));
    let fail: Vec<usize> =
        s["fail"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
    let pan = (s["pan"][0].as_str().unwrap().to_owned(), s["pan"][1].as_i64().unwrap() as usize);
    let period = s["period"].as_u64().unwrap_or(0) as usize;
    let grow = match s["grow"].as_array() {
        Some(g) => (g[0].as_u64().unwrap() as usize, g[1].as_u64().unwrap() as usize, g[2].as_u64().unwrap() as usize),
        None => (0, 0, 0),
    };
    let clip = |d: usize| Clip {
        d,
        len: s["n"][d - 1].as_u64().unwrap() as usize,
        w: us(s, "w"),
        h: us(s, "h"),
        depth: us(s, "depth"),
        cs,
        seed: us(s, "seed") as u64,
        uniform: st(s, "content") == "uniform",
        mixed: st(s, "content") == "mixed",
        fail: fail.clone(),
        kind: st(s, "fk").to_owned(),
        dies: (pan.0 == format!("dec{d}")).then_some(pan.1),
        delay: s["delay"][d - 1].as_u64().unwrap(),
        period,
        grow,
    };
    let a = clip(1);
    let mut b = clip(2);
    match st(s, "differ") {
        "no" => (),
        "depth" => b.depth = if b.depth == 8 { 10 } else { 8 },
        "cs" => b.cs = if cs == ChromaSampling::Cs444 { ChromaSampling::Cs420 } else { ChromaSampling::Cs444 },
        k => panic!("differ {k}"),
    }
    let limit = match int(s, "limit") {
        -1 => None,
        -2 => Some(usize::MAX),
        -3 => Some(usize::MAX / 2),
        -4 => Some(10_000_000_000_000),
        -5 => Some(1 << 32),
        -6 => Some((1 << 32) + 2),
        -7 => Some(1 << 63),
        -8 => Some((1 << 31) + 1),
        -9 => Some(258),
        -10 => Some((1 << 16) + 1),
        k => Some(k as usize),
    };

    let mut n = a.len.min(b.len).min(limit.unwrap_or(usize::MAX));
    if period > 0 {
        // All other pairs are like these
        n = n.min(period);
    }
    let vals: Vec<Value> = if a.uniform {
        [&a, &b]
            .iter()
            .map(|c| {
                json!((1..=n)
                    .map(|i| (0..3).map(|p| c.value(i, p)).collect::<Vec<_>>())
                    .collect::<Vec<_>>())
            })
            .collect()
    } else {
        vec![]
    };
    let pf = if st(s, "differ") != "no" || !s["pf"].as_bool().unwrap() {
        json!([])
    } else if a.depth > 8 {
        pair_results::<u16>(&m, &a, &b, n)
    } else {
        pair_results::<u8>(&m, &a, &b, n)
    };

    let sizes: Vec<usize> = if a.depth > 8 {
        plain_frame::<u16>(a.w + grow.1, a.h + grow.2, cs).planes.iter().map(|p| p.data.len() * 2).collect()
    } else {
        plain_frame::<u8>(a.w + grow.1, a.h + grow.2, cs).planes.iter().map(|p| p.data.len()).collect()
    };
    let per_frame = sizes.iter().filter(|z| **z == sizes[0]).count() as i64;
    let t = us(s, "t");
    let workers = (t > 0).then(|| pool(t));
    let busy = s["busy"].as_u64().filter(|ms| *ms > 0);
    LUMA.store(sizes[0], SeqCst);
    LIVE.store(0, SeqCst);
    let log = Arc::new(Log {
        ev: Mutex::new(Vec::with_capacity(4 * (a.len + b.len) + 1000)),
        per_frame,
        before: BYTES.load(SeqCst),
        counting: grow.0 == 0,
    });
    let pair: usize = 2 * sizes.iter().sum::<usize>();

    let (tx, rx) = mpsc::channel();
    let seed = us(s, "seed") as u64;
    let cbdelay = s["delay"][2].as_u64().unwrap();
    let (log1, m1) = (log.clone(), m.clone());
    std::thread::spawn(move || {
        let mut d1 = ClipDecoder { clip: a, calls: 0, log: Some(log1.clone()), rng: Rng::new(seed), busy };
        let mut d2 = ClipDecoder { clip: b, calls: 0, log: Some(log1.clone()), rng: Rng::new(seed + 1), busy: None };
        let calls = Mutex::new((0usize, Rng::new(seed + 2)));
        let log2 = log1.clone();
        let cb = |k: usize| {
            let n = {
                let mut c = calls.lock().unwrap_or_else(|e| e.into_inner());
                c.0 += 1;
                let n = c.0;
                pause(cbdelay, &mut c.1, n);
                n
            };
            if pan.0 == "cb" && pan.1 == n {
                log2.add("panic", 0, false, 0);
                panic!("callback");
            }
            let k = if k == usize::MAX { -1 } else { k.min(1_000_000_000) as i64 };
            log2.add("cb", 0, false, k);
        };
        let mut go = || guarded(|| video_metric(&m1, &mut d1, &mut d2, limit, &cb));
        let out = match &workers {
            None => go(),
            Some(p) => p.install(go),
        };
        log1.add("return", 0, false, 0);
        let _ = tx.send(out);
    });
    let (out, hung) = match rx.recv_timeout(watchdog) {
        Ok(out) => (out, false),
        Err(_) => {
            // It never returned: that is how it ended
            log.add("return", 0, false, 0);
            (json!({"kind": "hang", "score": [], "class": "hang"}), true)
        }
    };
    // Calls of the callback or of a decoder after the return would still be recorded
    let ev = log.events(period > 0);
    LUMA.store(0, SeqCst);
    let mut scn = s.clone();
    if t == 0 {
        scn["t"] = json!(rayon::current_num_threads());
    }
    scn["grow"] = json!([grow.0, grow.1, grow.2]);
    scn["pair"] = json!(pair / 1024 + 1);
    (json!({"id": s["id"], "scn": scn, "ev": ev, "out": out, "vals": vals, "pf": pf}), hung)
}
