//! A decoder which makes up its frames, so that it can have very many: read_specific_frame of the trait on it.
use crate::util::*;
use crate::y4mfile::watched;
use av_metrics::video::decode::{Decoder, VideoDetails};
use av_metrics::video::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Duration;

/// Its frames bear their number, in four samples
struct Counted {
    total: usize,
    delivered: usize,
    after: usize,
}

impl Decoder for Counted {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        if self.delivered == self.total {
            self.after += 1;
            // Who never stops asking is not left to do so
            assert!(self.after < 100_000, "asked again and again behind the end");
            return None;
        }
        let mut f = Frame::new_with_padding(4, 1, ChromaSampling::Cs400, 0);
        for (k, p) in f.planes[0].data_origin_mut().iter_mut().take(4).enumerate() {
            *p = T::cast_from((self.delivered >> (8 * k)) as u8);
        }
        self.delivered += 1;
        Some(f)
    }
    fn get_bit_depth(&self) -> usize {
        8
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails { width: 4, height: 1, chroma_sampling: ChromaSampling::Cs400, ..VideoDetails::default() }
    }
}

fn run_as<T: Pixel>(s: &Value, ev: &crate::y4mfile::Events, current: &Mutex<Value>) {
    let mut d = Counted { total: us(s, "n"), delivered: 0, after: 0 };
    for o in s["ops"].as_array().unwrap() {
        let k = int(o, "k");
        *current.lock().unwrap() = json!({"op": o["op"], "k": k, "number": 0, "delivered": 0});
        let got = catch_unwind(AssertUnwindSafe(|| match st(o, "op") {
            "read" => d.read_video_frame::<T>(),
            _ => d.read_specific_frame::<T>(crate::y4mfile::asked(k)),
        }));
        let (kind, number) = match &got {
            Err(_) => ("panic", 0),
            Ok(None) => ("none", 0),
            Ok(Some(f)) => (
                "some",
                f.planes[0].data_origin().iter().take(4).rev().fold(0usize, |n, p| (n << 8) + u16::cast_from(*p) as usize) + 1,
            ),
        };
        ev.lock().unwrap().push(json!({"op": o["op"], "k": k, "kind": kind, "number": number, "delivered": d.delivered}));
        if kind == "panic" {
            break;
        }
    }
}

pub fn run(s: &Value) -> (Value, bool) {
    let s1 = s.clone();
    let (ev, hung) = watched(Duration::from_secs(30), move |ev, current| {
        if s1["wide"].as_bool().unwrap() {
            run_as::<u16>(&s1, ev, current)
        } else {
            run_as::<u8>(&s1, ev, current)
        }
    });
    (json!({"id": s["id"], "scn": s, "ev": ev}), hung)
}
