//! Runs scenarios of VsGen.tla: clips of a stand-in for VapourSynth, and what the decoder makes of them.
//! Usage: avm-vsharness vs SCENARIOS.json TRACES.jsonl
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
#[allow(dead_code)]
#[path = "../../harness/src/y4mfile.rs"]
mod y4mfile;
mod stub;

use av_metrics_decoders::{VapoursynthDecoder, VapoursynthDecoderPlugin};
use serde_json::{json, Value};
use std::io::Write;
use std::path::Path;
use std::sync::atomic::Ordering;
use std::time::Duration;
use util::*;
use vapoursynth_sys::VSFormat;

fn escaped(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\r', "\\r")
}

fn count(d: &VapoursynthDecoder) -> i64 {
    d.get_frame_count().map(|n| n as i64).unwrap_or(-1)
}

fn run(s: &Value, dir: &Path) -> (Value, bool) {
    let n = |k: &str| s[k].as_i64().unwrap();
    let (bits, w, h) = (us(s, "bits"), us(s, "w"), us(s, "h"));
    let gray = st(s, "family") == "gray";
    let mut r = Rng::new(us(s, "seed") as u64);
    let frames: Vec<_> = (0..us(s, "n"))
        .map(|_| {
            (0..if gray { 1 } else { 3 })
                .map(|p| {
                    let (pw, ph) = if p == 0 { (w, h) } else { (w >> us(s, "ssw"), h >> us(s, "ssh")) };
                    (0..ph).map(|_| (0..pw).map(|_| r.below(1 << bits.min(16)) as i32).collect()).collect()
                })
                .collect()
        })
        .collect();
    let via = st(s, "via").to_owned();
    let name = st(s, "name").replace("UNICODE", "\u{e9}\u{4e16}");
    // A script may name its video by a path which is relative to where the script is
    let near = s["near"].as_bool().unwrap();
    let home = if near { dir.join("scripts") } else { dir.to_owned() };
    std::fs::create_dir_all(&home).unwrap();
    let path = home.join(&name);
    let _ = std::fs::remove_file(&path);
    if s["exists"].as_bool().unwrap() {
        std::fs::write(&path, b"some video").unwrap();
    }
    let real = path.to_str().unwrap().to_owned();
    let hidden = s["hidden"].as_bool().unwrap();
    let family = match st(s, "family") {
        "gray" => 1000000,
        "rgb" => 2000000,
        "compat" => 9000000,
        _ => 3000000,
    };
    let mut format_name = [0; 32];
    format_name[0] = b'F' as _;
    let vary = st(s, "vary");
    stub::forget();
    if s["works"].as_bool().unwrap() {
        stub::register(
            &real,
            stub::Clip {
                format: VSFormat {
                    name: format_name,
                    id: family as i32 + bits as i32,
                    colorFamily: family,
                    sampleType: s["float"].as_bool().unwrap() as i32,
                    bitsPerSample: bits as i32,
                    bytesPerSample: if bits <= 8 { 1 } else if bits <= 16 { 2 } else { 4 },
                    subSamplingW: n("ssw") as i32,
                    subSamplingH: n("ssh") as i32,
                    numPlanes: if gray { 1 } else { 3 },
                },
                no_format: vary == "format",
                info: (
                    if vary == "rate" { 0 } else { n("num") },
                    if vary == "rate" { 0 } else { n("den") },
                    if vary == "size" { 0 } else { w as i32 },
                    if vary == "size" { 0 } else { h as i32 },
                    us(s, "n") as i32,
                ),
                frames: frames.clone(),
                bad: n("bad") as i32,
                no_output: hidden,
                function: match via.as_str() {
                    "lsmash" | "default" => "core.lsmas.LWLibavSource",
                    "best" => "core.bs.VideoSource",
                    _ => "core.std.Clip",
                },
            },
        );
    }
    let script = home.join(name.clone() + ".vpy");
    std::fs::write(
        &script,
        format!("import vapoursynth as vs\ncore = vs.core\nclip = core.std.Clip(source=\"{}\")\nclip.set_output(0)\n", escaped(if near { &name } else { &real })),
    )
    .unwrap();
    if via == "script" && !s["exists"].as_bool().unwrap() {
        std::fs::remove_file(&script).unwrap();
    }
    let script1 = script.clone();
    let s1 = s.clone();
    // and the decoder may be given a path which is relative to where the process is
    let given = |p: &Path| if s["relative"].as_bool().unwrap() { p.strip_prefix(dir).unwrap().to_owned() } else { p.to_owned() };
    let (script, p) = (given(&script), given(&path));
    let frames_told = std::sync::Arc::new(std::sync::atomic::AtomicI64::new(-2));
    let told = frames_told.clone();
    let (ev, hung) = y4mfile::watched(Duration::from_secs(20), move |ev, cur| {
        y4mfile::decode(
            || {
                let d = match via.as_str() {
                    "script" => VapoursynthDecoder::new_from_script(&script),
                    "best" => VapoursynthDecoder::new_from_video_with_decoder(&p, VapoursynthDecoderPlugin::BestSource),
                    "lsmash" => VapoursynthDecoder::new_from_video_with_decoder(&p, VapoursynthDecoderPlugin::LSmash),
                    _ => VapoursynthDecoder::new_from_video(&p),
                }
                .map_err(|e| e.to_string())?;
                told.store(count(&d), Ordering::SeqCst);
                Ok(d)
            },
            &s1,
            ev,
            cur,
        )
    });
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(&script1);
    let held = [&stub::FRAMES, &stub::NODES, &stub::SCRIPTS].map(|c| c.swap(0, Ordering::SeqCst));
    (
        json!({"id": s["id"], "scn": s, "src": frames, "ev": ev, "count": frames_told.load(Ordering::SeqCst), "held": held}),
        hung,
    )
}

fn main() {
    if std::env::var_os("AVM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let scenarios: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap();
    let mut out = std::fs::File::create(&args[3]).unwrap();
    let mut hangs = 0;
    for s in &scenarios {
        if hangs >= 3 {
            break;
        }
        let (t, hung) = run(s, &dir);
        hangs += hung as usize;
        let mut line = serde_json::to_vec(&t).unwrap();
        line.push(b'\n');
        out.write_all(&line).unwrap();
    }
    std::process::exit(0);
}
