//! What the library makes of two y4m files: the reference for the reports of the tool.
use crate::util::*;
use av_metrics_decoders::y4m::new_decoder_from_file;
use serde_json::{json, Map, Value};

pub fn run(s: &Value) -> Value {
    let mut scores = Map::new();
    for m in ["psnr", "apsnr", "psnrhvs", "ssim", "msssim", "ciede"] {
        let r = guarded(|| {
            let mut a = new_decoder_from_file(st(s, "base"))?;
            let mut b = new_decoder_from_file(st(s, "file"))?;
            video_metric(m, &mut a, &mut b, None, |_| {})
        });
        scores.insert(m.into(), r["score"].clone());
    }
    json!({"id": s["id"], "scores": scores})
}
