//! Calls of convert_chroma_data as ChromaGen.tla describes them.
use crate::util::*;
use av_metrics::video::decode::convert_chroma_data;
use av_metrics::video::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn position(p: &str) -> ChromaSamplePosition {
    match p {
        "unknown" => ChromaSamplePosition::Unknown,
        "vertical" => ChromaSamplePosition::Vertical,
        "colocated" => ChromaSamplePosition::Colocated,
        "bilateral" => ChromaSamplePosition::Bilateral,
        "interpolated" => ChromaSamplePosition::Interpolated,
        _ => panic!("position {p}"),
    }
}

fn convert<T: Pixel>(s: &Value) -> Value {
    let (w, h) = (us(s, "w"), us(s, "h"));
    let mut r = Rng::new(us(s, "seed") as u64);
    let mut plane: Plane<T> = if w == 0 {
        Plane::new(0, 0, 0, 0, 0, 0)
    } else {
        Plane::new(w + us(s, "ex"), h + us(s, "ey"), 1, 1, us(s, "xpad"), us(s, "ypad"))
    };
    plane.cfg.width = w;
    plane.cfg.height = h;
    for v in plane.data.iter_mut() {
        *v = T::cast_from(r.below(256) as i32);
    }
    let mut ev = vec![];
    for o in s["ops"].as_array().unwrap() {
        let mut r = Rng::new(us(o, "seed") as u64);
        let (bw, depth) = (us(o, "bw"), us(o, "depth"));
        let stride = w.max(1) * bw + us(o, "more");
        let max = if bw == 1 { 255u64 } else { (1 << depth) - 1 };
        let (a, b) = (r.below(max + 1), r.below(w.max(1) as u64));
        let mut bytes: Vec<u8> = (0..stride * h.max(1)).map(|_| r.next() as u8).collect();
        for y in 0..h {
            for x in 0..w {
                let v = match st(o, "kind") {
                    "noise" => r.below(max + 1),
                    "extreme" => max * r.below(2),
                    "flat" => a,
                    "ramp" => (x as u64 * 37 + y as u64 * 11 + a) % (max + 1),
                    "impulse" => if x as u64 == b { max } else { a / 2 },
                    "step" => if x as u64 >= b { max } else { 0 },
                    "wild" => r.next() & if bw == 1 { 255 } else { 65535 },
                    k => panic!("kind {k}"),
                };
                let k = y * stride + x * bw;
                bytes[k] = v as u8;
                if bw == 2 {
                    bytes[k + 1] = (v >> 8) as u8;
                }
            }
        }
        let res = catch_unwind(AssertUnwindSafe(|| {
            convert_chroma_data(&mut plane, position(st(o, "position")), depth, &bytes, stride, bw)
        }));
        let kind = if res.is_ok() { "ok" } else { "panic" };
        ev.push(json!({"op": "convert", "position": o["position"], "depth": depth, "bw": bw, "stride": stride,
                       "bytes": bytes, "kind": kind, "out": visible_json(&plane)}));
        if res.is_err() {
            break;
        }
    }
    json!({"id": s["id"], "scn": s, "ev": ev})
}

pub fn run(s: &Value) -> Value {
    if s["wide"].as_bool().unwrap() {
        convert::<u16>(s)
    } else {
        convert::<u8>(s)
    }
}
