//! Runs scenarios of FfmpegGen.tla: encodes pictures with ffgen and records what the ffmpeg decoder makes of them.
//! Usage: avm-ffharness ffmpeg SCENARIOS.json TRACES.jsonl, with the path of ffgen in AVM_FFGEN
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
#[allow(dead_code)]
#[path = "../../harness/src/y4mfile.rs"]
mod y4mfile;

use av_metrics_decoders::FfmpegDecoder;
use serde_json::{json, Value};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;
use util::*;

type Picture = Vec<Vec<Vec<i32>>>;

/// Distinct pictures: noise, or, for lossy codecs, levels which are told apart whatever the codec does to them
/// Pictures of long videos repeat after 40, but for noise
fn pictures(s: &Value, w: usize, h: usize, noise: bool, r: &mut Rng) -> Vec<Picture> {
    let (frames, depth, cs) = (us(s, "n"), us(s, "depth"), sampling(st(s, "cs")));
    let n = if frames > 100 { 40 } else { frames };
    let mut order: Vec<usize> = (0..n).collect();
    // What changes slowly is encoded with packets which show nothing
    let slow = st(s, "codec") == "libvpx" && us(s, "bframes") > 0;
    for i in (1..if slow { 1 } else { n }).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let texture: Vec<i32> = (0..if slow { w * h } else { 0 }).map(|_| r.below(60) as i32).collect();
    (0..frames)
        .map(|i| i % n)
        .map(|i| {
            (0..3)
                .map(|p| {
                    let (pw, ph) = dims(w, h, cs, p);
                    let level = if p == 0 {
                        (30 + if slow { 150 } else { 180 } * order[i] / n) << (depth - 8)
                    } else if slow {
                        60 + 130 * i / n
                    } else {
                        (60 + 130 * ((order[i] * 7 + p) % n) / n) << (depth - 8)
                    };
                    (0..ph)
                        .map(|y| {
                            (0..pw)
                                .map(|x| match (noise, p) {
                                    (true, _) => r.below(1 << depth) as i32,
                                    (_, 0) if slow => level as i32 + texture[y * w + x],
                                    _ => (level + x / 16) as i32,
                                })
                                .collect()
                        })
                        .collect()
                })
                .collect()
        })
        .collect()
}

fn raw(p: &Picture, depth: usize, out: &mut Vec<u8>) {
    for v in p.iter().flatten().flatten() {
        out.push(*v as u8);
        if depth > 8 {
            out.push((*v >> 8) as u8);
        }
    }
}

/// Runs ffgen on an input
fn ffgen(path: &PathBuf, s: &Value, lossless: &str, data: &[u8]) -> Option<String> {
    let num = |k: &str| us(s, k).to_string();
    let mut p = Command::new("timeout")
        .arg("60")
        .arg(std::env::var_os("AVM_FFGEN").unwrap())
        .arg(path)
        .args([st(s, "codec"), st(s, "fmt"), &num("w"), &num("h"), &num("n"), &num("bframes")])
        .args([lossless, &num("audio"), &num("w2"), &num("h2")])
        .args([&num("num"), &num("den")])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let _ = p.stdin.take().unwrap().write_all(data);
    let out = p.wait_with_output().unwrap();
    out.status.success().then(|| String::from_utf8_lossy(&out.stdout).into_owned())
}

/// Encodes the pictures of a scenario; None if ffgen cannot
fn encode(s: &Value, path: &PathBuf) -> Option<(Vec<Vec<Picture>>, usize)> {
    let mut r = Rng::new(us(s, "seed") as u64);
    let mut src = vec![pictures(s, us(s, "w"), us(s, "h"), s["lossless"].as_bool().unwrap(), &mut r)];
    if us(s, "w2") > 0 {
        src.push(pictures(s, us(s, "w2"), us(s, "h2"), true, &mut r));
    }
    let mut data = vec![];
    for i in 0..us(s, "n") {
        for v in &src {
            raw(&v[i], us(s, "depth"), &mut data);
        }
    }
    let text = ffgen(path, s, if s["lossless"].as_bool().unwrap() { "1" } else { "0" }, &data)?;
    // Packets of the video, those out of presentation order, and pictures libavcodec makes of the file
    let v: Vec<usize> = text.split_whitespace().filter_map(|v| v.parse().ok()).collect();
    (v.len() == 3 && v[2] == us(s, "n")).then_some((src, v[1]))
}

/// Makes the file of a scenario of FfDamageGen.tla; false if ffgen cannot
fn damaged(s: &Value, path: &PathBuf) -> bool {
    let mut b = vec![];
    let mut r = Rng::new(0);
    for q in s["parts"].as_array().unwrap() {
        r = Rng::new(us(q, "seed") as u64);
        let text = if st(s, "kind") == "unsupported" {
            ffgen(path, q, "2", &[])
        } else {
            let mut data = vec![];
            for v in pictures(q, us(q, "w"), us(q, "h"), q["lossless"].as_bool().unwrap(), &mut r) {
                raw(&v, us(q, "depth"), &mut data);
            }
            ffgen(path, q, if q["lossless"].as_bool().unwrap() { "1" } else { "0" }, &data)
        };
        if text.is_none() {
            return false;
        }
        b.extend(std::fs::read(path).unwrap());
    }
    for d in s["damage"].as_array().unwrap() {
        let at = b.len() * us(d, "at") / 1000;
        let end = (at + us(d, "len")).min(b.len());
        match st(d, "kind") {
            "cut" => b.truncate(at),
            "zero" => b[at..end].fill(0),
            "noise" => b[at..end].iter_mut().for_each(|v| *v = r.next() as u8),
            "drop" => {
                b.drain(at..end);
            }
            "twice" => {
                let again = b[at..end].to_vec();
                b.splice(at..at, again);
            }
            "flip" => {
                if at < b.len() {
                    b[at] ^= 1 << r.below(8)
                }
            }
            "marker" => {
                // Spoils the mark of a frame, and lets the line which then begins end where the next frame begins
                let marks: Vec<usize> = (0..b.len().saturating_sub(6)).filter(|i| &b[*i..*i + 6] == b"FRAME\n").collect();
                if !marks.is_empty() {
                    let m = us(d, "at") % marks.len();
                    b[marks[m]] ^= 1;
                    if let Some(next) = marks.get(m + 1) {
                        b[*next - 1] = b'\n';
                    }
                }
            }
            "text" => b = b"This is no video.\n".repeat(us(d, "len")),
            "random" => b = (0..us(d, "len")).map(|_| r.next() as u8).collect(),
            "empty" => b.clear(),
            "missing" => {
                let _ = std::fs::remove_file(path);
                return true;
            }
            "folder" => {
                std::fs::create_dir(path).unwrap();
                return true;
            }
            k => panic!("damage {k}"),
        }
    }
    std::fs::write(path, b).unwrap();
    true
}

/// What libavcodec makes of a file. Where nothing is decoded, pictures hold whatever was there: those are not sure.
fn probe(path: &PathBuf) -> Option<Value> {
    let (mut a, b) = (probe_filled(path, "0")?, probe_filled(path, "170")?);
    for (i, f) in a["frames"].as_array_mut().unwrap().iter_mut().enumerate() {
        f["sure"] = json!(b["frames"][i]["planes"] == f["planes"]);
    }
    Some(a)
}

fn probe_filled(path: &PathBuf, fill: &str) -> Option<Value> {
    let out = Command::new("timeout").arg("60").arg(std::env::var_os("AVM_FFGEN").unwrap()).arg("--probe").arg(path).arg(fill).env("MALLOC_PERTURB_", format!("{}", 50 + fill.len())).output().unwrap();
    if out.status.code() == Some(3) {
        return Some(json!({"ok": false, "w": 0, "h": 0, "fmt": "", "frames": []}));
    }
    if !out.status.success() {
        return None;
    }
    let mut b = &out.stdout[..];
    let line = |b: &mut &[u8]| {
        let n = b.iter().position(|c| *c == 10).unwrap();
        let l = String::from_utf8_lossy(&b[..n]).into_owned();
        *b = &b[n + 1..];
        let v: Vec<String> = l.split(' ').map(str::to_owned).collect();
        (v[0].parse::<usize>().unwrap(), v[1].parse::<usize>().unwrap(), v[2].clone())
    };
    let (w, h, fmt) = line(&mut b);
    let mut frames = vec![];
    while !b.is_empty() {
        let (w, h, f) = line(&mut b);
        let base = f.trim_start_matches("yuvj").trim_start_matches("yuv");
        let bytes = match base.split_once('p').map(|p| p.1) {
            Some("") => 1,
            Some("10le" | "12le") => 2,
            _ => return None,
        };
        let cs = match &base[..3] {
            c @ ("420" | "422" | "444") => sampling(c),
            _ => return None,
        };
        let planes: Picture = (0..3)
            .map(|p| {
                let (pw, ph) = dims(w, h, cs, p);
                (0..ph)
                    .map(|_| {
                        let (row, rest) = b.split_at(pw * bytes);
                        b = rest;
                        row.chunks(bytes).map(|v| v[0] as i32 + v.get(1).map_or(0, |v| (*v as i32) << 8)).collect()
                    })
                    .collect()
            })
            .collect();
        frames.push(json!({"w": w, "h": h, "fmt": f, "planes": planes}));
    }
    Some(json!({"ok": true, "w": w, "h": h, "fmt": fmt, "frames": frames}))
}

fn remove(path: &PathBuf) {
    if std::fs::remove_file(path).is_err() {
        let _ = std::fs::remove_dir(path);
    }
}

/// Does f for all numbers below n, in some threads
fn spread<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        let threads: Vec<_> = (0..8)
            .map(|_| {
                sc.spawn(|| {
                    let mut done = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            return done;
                        }
                        done.push((i, f(i)));
                    }
                })
            })
            .collect();
        let mut parts: Vec<(usize, T)> = threads.into_iter().flat_map(|t| t.join().unwrap()).collect();
        parts.sort_by_key(|p| p.0);
        parts.into_iter().map(|p| p.1).collect()
    })
}

fn main() {
    if std::env::var_os("AVM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let scenarios: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let dir = std::env::current_dir().unwrap();
    let path = |i: usize| dir.join(format!("video{i}.{}", st(&scenarios[i], "ext")));
    if args[1] == "damage" {
        let mut out = std::fs::File::create(&args[3]).unwrap();
        let mut hangs = 0;
        let probes = spread(scenarios.len(), |i| if damaged(&scenarios[i], &path(i)) { probe(&path(i)) } else { None });
        for (i, s) in scenarios.iter().enumerate() {
            if hangs >= 3 {
                break;
            }
            let t = match &probes[i] {
                None => json!({"id": s["id"], "scn": s, "skipped": true}),
                Some(p) => {
                    let mut s1 = s.clone();
                    let mut ops = vec![json!({"op": "details", "k": 0})];
                    ops.resize(p["frames"].as_array().unwrap().len() + 4, json!({"op": "read", "k": 0}));
                    ops.push(json!({"op": "details", "k": 0}));
                    s1["ops"] = json!(ops);
                    let file = path(i);
                    let (ev, hung) = y4mfile::watched(Duration::from_secs(20), move |ev, cur| {
                        y4mfile::decode(|| FfmpegDecoder::new(file), &s1, ev, cur)
                    });
                    hangs += hung as usize;
                    json!({"id": s["id"], "scn": s, "probe": p, "ev": ev, "skipped": false})
                }
            };
            remove(&path(i));
            let mut line = serde_json::to_vec(&t).unwrap();
            line.push(b'\n');
            out.write_all(&line).unwrap();
        }
        std::process::exit(0);
    }
    let sources = spread(scenarios.len(), |i| encode(&scenarios[i], &path(i)));
    let mut out = std::fs::File::create(&args[3]).unwrap();
    let mut hangs = 0;
    for (i, s) in scenarios.iter().enumerate() {
        if hangs >= 3 {
            break;
        }
        let t = match &sources[i] {
            None => json!({"id": s["id"], "scn": s, "skipped": true}),
            Some((src, reordered)) => {
                let (p, s1) = (path(i), s.clone());
                let (ev, hung) = y4mfile::watched(Duration::from_secs(20), move |ev, cur| {
                    y4mfile::decode(|| FfmpegDecoder::new(p), &s1, ev, cur)
                });
                hangs += hung as usize;
                json!({"id": s["id"], "scn": s, "src": src, "ev": ev, "reordered": reordered, "skipped": false})
            }
        };
        let _ = std::fs::remove_file(path(i));
        let mut line = serde_json::to_vec(&t).unwrap();
        line.push(b'\n');
        out.write_all(&line).unwrap();
    }
    std::process::exit(0);
}
