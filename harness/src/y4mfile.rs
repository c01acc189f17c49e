//! y4m files: writes what a scenario of Y4mGen.tla describes and records what the decoder makes of it.
use crate::util::*;
use av_metrics::video::decode::*;
use av_metrics::video::*;
use av_metrics_decoders::y4m::{new_decoder_from_file, new_decoder_from_stdin};
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

fn fill(kind: &str, n: usize, r: &mut Rng, out: &mut Vec<u8>) {
    let start = out.len();
    while out.len() < start + n {
        match kind {
            "noise" => out.push(r.next() as u8),
            "newlines" => out.push(if r.below(3) == 0 { 10 } else { r.next() as u8 }),
            "frames" => out.extend_from_slice([&b"FRAME\n"[..], b"FRAME ", b"\n", b"FRAME Ip\n"][r.below(4) as usize]),
            "zero" => out.push(0),
            "ones" => out.push(255),
            "lines" => out.push(10),
            k => panic!("kind {k}"),
        }
    }
    out.truncate(start + n);
}

fn file(s: &Value) -> Vec<u8> {
    let mut r = Rng::new(us(s, "seed") as u64);
    let mut b = st(s, "header").as_bytes().to_vec();
    match st(s, "end") {
        "line" => b.push(10),
        "long" => {
            while b.len() < 1400 {
                b.extend_from_slice(b"Xpad ");
            }
            b.push(10);
        }
        _ => (),
    }
    if s["stop"].as_bool().unwrap() {
        return b;
    }
    for i in 1..=us(s, "n") + 1 {
        if i == us(s, "badat") {
            if st(s, "badmark") == "long" {
                b.extend_from_slice(b"FRAME ");
                b.resize(b.len() + 1300, b'x');
            } else {
                b.extend_from_slice(st(s, "badmark").as_bytes());
            }
        } else if i > us(s, "n") {
            break;
        } else {
            b.extend_from_slice(st(s, "mark").as_bytes());
        }
        b.push(10);
        fill(st(s, "kind"), us(s, "framesize"), &mut r, &mut b);
    }
    if !st(s, "tail").is_empty() {
        let n = 1 + r.below(2 * us(s, "framesize") as u64 + 20) as usize;
        fill(st(s, "tail"), n, &mut r, &mut b);
    }
    if int(s, "exact") >= 0 {
        b.truncate(us(s, "exact"));
    } else if int(s, "cut") >= 0 {
        b.truncate(b.len() * us(s, "cut") / 1000);
    }
    b
}

pub fn details(d: &VideoDetails, depth: usize) -> Value {
    let digits = |n: u64| n.to_string().into_bytes();
    let rate = Rational::from_reciprocal(d.time_base);
    json!({"w": d.width, "h": d.height, "depth": d.bit_depth, "depth2": depth, "cs": sampling_name(d.chroma_sampling),
           "siting": position_name(d.chroma_sample_position), "num": digits(d.time_base.num), "den": digits(d.time_base.den),
           // The time base as a number, and turned over
           "seconds": f64v(d.time_base.as_f64()), "rate": [digits(rate.num), digits(rate.den)]})
}

/// The number of the frame asked for: negative ones stand for numbers beyond every video
pub fn asked(k: i64) -> usize {
    match k {
        -1 => usize::MAX,
        -2 => 10_000_000_000_000,
        -3 => usize::MAX - 1,
        -4 => 1 << 32,
        -5 => (1 << 32) + 1,
        -6 => 1 << 31,
        -7 => 1 << 63,
        _ => k as usize,
    }
}

pub type Events = Arc<Mutex<Vec<Value>>>;

pub fn frame_event<T: Pixel>(op: &str, k: i64, f: std::thread::Result<Option<Frame<T>>>) -> Value {
    let (kind, planes) = match f {
        Err(_) => ("panic", json!([])),
        Ok(None) => ("none", json!([])),
        Ok(Some(f)) => ("some", json!(f.planes.iter().map(|p| visible_json(p)).collect::<Vec<_>>())),
    };
    json!({"op": op, "k": k, "kind": kind, "planes": planes})
}

pub fn calls<T: Pixel, D: Decoder>(d: &mut D, s: &Value, ev: &Events, current: &Mutex<Value>) {
    for o in s["ops"].as_array().unwrap() {
        *current.lock().unwrap() = o.clone();
        let k = int(o, "k");
        let e = match st(o, "op") {
            "read" => frame_event::<T>("read", 0, catch_unwind(AssertUnwindSafe(|| d.read_video_frame()))),
            "specific" => {
                let n = asked(k);
                frame_event::<T>("specific", k, catch_unwind(AssertUnwindSafe(|| d.read_specific_frame(n))))
            }
            "details" => match catch_unwind(AssertUnwindSafe(|| (d.get_video_details(), d.get_bit_depth()))) {
                Ok((v, depth)) => json!({"op": "details", "k": 0, "kind": "some", "details": details(&v, depth)}),
                Err(_) => json!({"op": "details", "k": 0, "kind": "panic"}),
            },
            o => panic!("op {o}"),
        };
        let stop = e["kind"] == "panic";
        ev.lock().unwrap().push(e);
        if stop {
            break;
        }
    }
}

pub fn decode<D: Decoder>(
    open: impl FnOnce() -> Result<D, String>,
    s: &Value,
    ev: &Events,
    current: &Mutex<Value>,
) {
    *current.lock().unwrap() = json!({"op": "open"});
    let d = catch_unwind(AssertUnwindSafe(open));
    let kind = match &d {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    ev.lock().unwrap().push(json!({"op": "open", "kind": kind}));
    if let Ok(Ok(mut d)) = d {
        let wide = s["wide"].as_bool().unwrap() || catch_unwind(AssertUnwindSafe(|| d.get_bit_depth())).unwrap_or(8) > 8;
        if wide {
            calls::<u16, D>(&mut d, s, ev, current)
        } else {
            calls::<u8, D>(&mut d, s, ev, current)
        }
    }
}

/// Runs `f`, which records events, and waits for its end
pub fn watched(limit: Duration, f: impl FnOnce(&Events, &Mutex<Value>) + Send + 'static) -> (Vec<Value>, bool) {
    let ev: Events = Arc::new(Mutex::new(vec![]));
    let current = Arc::new(Mutex::new(Value::Null));
    let (tx, rx) = mpsc::channel();
    let (ev1, cur1) = (ev.clone(), current.clone());
    std::thread::spawn(move || {
        f(&ev1, &cur1);
        let _ = tx.send(());
    });
    match rx.recv_timeout(limit) {
        Err(mpsc::RecvTimeoutError::Timeout) => {
            let mut l = ev.lock().unwrap().clone();
            let mut c = current.lock().unwrap().clone();
            c["kind"] = json!("hang");
            l.push(c);
            (l, true)
        }
        _ => (ev.lock().unwrap().clone(), false),
    }
}

fn dribble(mut w: impl Write, bytes: &[u8], chunk: usize) {
    let chunk = if chunk == 0 { bytes.len().max(1) } else { chunk };
    for (i, c) in bytes.chunks(chunk).enumerate() {
        if w.write_all(c).is_err() {
            return;
        }
        let _ = w.flush();
        if i < 40 {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
}

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}

pub fn run(s: &Value, watchdog: Duration) -> (Value, bool) {
    let bytes = file(s);
    let chunk = us(s, "chunk");
    let path = std::env::current_dir().unwrap().join(format!("file{}.y4m", std::process::id()));
    let _ = std::fs::remove_file(&path);
    let (ev, hung) = match st(s, "via") {
        "stdin" => stdin_child(s, &bytes, chunk, watchdog),
        via => {
            if via == "fifo" {
                let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
                assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0);
                let (p, b) = (path.clone(), bytes.clone());
                std::thread::spawn(move || {
                    if let Ok(f) = std::fs::OpenOptions::new().write(true).open(p) {
                        dribble(f, &b, chunk);
                    }
                });
            } else {
                std::fs::write(&path, &bytes).unwrap();
            }
            let (p, s) = (path.clone(), s.clone());
            watched(watchdog, move |ev, cur| decode(|| new_decoder_from_file(p), &s, ev, cur))
        }
    };
    let _ = std::fs::remove_file(&path);
    (json!({"id": s["id"], "scn": s, "bytes": bytes, "ev": ev}), hung)
}

/// The child which reads from its standard input, and prints the events
pub fn child(scenario: &str) {
    let s: Value = serde_json::from_str(scenario).unwrap();
    let (ev, _) = watched(Duration::from_secs(15), move |ev, cur| decode(new_decoder_from_stdin, &s, ev, cur));
    println!("{}", json!(ev));
}

fn stdin_child(s: &Value, bytes: &[u8], chunk: usize, watchdog: Duration) -> (Vec<Value>, bool) {
    let mut p = Command::new(std::env::current_exe().unwrap())
        .args(["y4m-child", &s.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let input = p.stdin.take().unwrap();
    let b = bytes.to_vec();
    std::thread::spawn(move || dribble(input, &b, chunk));
    let (tx, rx) = mpsc::channel();
    let mut output = p.stdout.take().unwrap();
    std::thread::spawn(move || {
        let mut t = String::new();
        let _ = std::io::Read::read_to_string(&mut output, &mut t);
        let _ = tx.send(t);
    });
    let text = rx.recv_timeout(watchdog).unwrap_or_default();
    let _ = p.kill();
    let _ = p.wait();
    match serde_json::from_str::<Vec<Value>>(&text) {
        Ok(ev) => {
            let hung = ev.last().is_some_and(|e| e["kind"] == "hang");
            (ev, hung)
        }
        // It was aborted or did not answer
        Err(_) => (vec![json!({"op": "open", "kind": "crash"})], true),
    }
}
