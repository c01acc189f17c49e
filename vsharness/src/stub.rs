//! Stands in for the VapourSynth library, which is not installed: scripts name clips that were registered before, and
//! frames are handed out with padded rows, as by VapourSynth.
#![allow(non_snake_case)]
use std::collections::HashMap;
use std::ffi::{c_char, c_int, CStr, CString};
use std::path::Path;
use std::sync::atomic::{AtomicIsize, Ordering};
use std::sync::{Mutex, OnceLock};
use vapoursynth_sys::*;

pub struct Clip {
    pub format: VSFormat,
    pub no_format: bool,
    pub info: (i64, i64, i32, i32, i32),
    /// frames, planes, rows, samples
    pub frames: Vec<Vec<Vec<Vec<i32>>>>,
    /// the frame which cannot be produced
    pub bad: i32,
    pub no_output: bool,
    /// the function of the plugin which must be used to load it, or "" for a script
    pub function: &'static str,
}

static CLIPS: Mutex<Option<HashMap<String, &'static Clip>>> = Mutex::new(None);
pub static FRAMES: AtomicIsize = AtomicIsize::new(0);
pub static NODES: AtomicIsize = AtomicIsize::new(0);
pub static SCRIPTS: AtomicIsize = AtomicIsize::new(0);

pub fn register(path: &str, clip: Clip) {
    CLIPS.lock().unwrap().get_or_insert_with(HashMap::new).insert(path.to_owned(), Box::leak(Box::new(clip)));
}

pub fn forget() {
    *CLIPS.lock().unwrap() = None;
}

struct Script {
    clip: Option<&'static Clip>,
    error: CString,
}

struct Node {
    clip: &'static Clip,
    info: VSVideoInfo,
}

struct Picture {
    format: *const VSFormat,
    /// data, bytes of a row, width, height
    planes: Vec<(Vec<u8>, usize, usize, usize)>,
}

/// The clip of a Python script: `clip = function(source="path", ...)`, or what is wrong with it
/// Relative paths are taken from `dir`.
fn evaluate(script: &str, dir: &Path) -> Result<&'static Clip, String> {
    let call = script
        .lines()
        .find_map(|l| l.trim().strip_prefix("clip = "))
        .ok_or("NameError: name 'clip' is not defined")?;
    let (function, args) = call.split_once("(source=\"").ok_or("SyntaxError: invalid syntax")?;
    let mut path = String::new();
    let mut chars = args.chars();
    loop {
        match chars.next().ok_or("SyntaxError: unterminated string literal")? {
            '"' => break,
            '\\' => match chars.next().ok_or("SyntaxError: unterminated string literal")? {
                'r' => path.push('\r'),
                'n' => path.push('\n'),
                't' => path.push('\t'),
                c @ ('\\' | '"' | '\'') => path.push(c),
                c => path.extend(['\\', c]),
            },
            '\r' => return Err("SyntaxError: unterminated string literal".into()),
            c => path.push(c),
        }
    }
    let rest: String = chars.collect();
    if !rest.trim_end().ends_with(')') || !script.contains("clip.set_output(") {
        return Err("SyntaxError: invalid syntax".into());
    }
    let full = dir.join(&path).to_str().unwrap().to_owned();
    let clips = CLIPS.lock().unwrap();
    let clip = clips.as_ref().and_then(|c| c.get(&full)).copied().ok_or_else(|| format!("Error: cannot open {path}"))?;
    if clip.function != function {
        return Err(format!("AttributeError: No attribute with the name {function} exists"));
    }
    Ok(clip)
}

#[no_mangle]
extern "C" fn vsscript_init() -> c_int {
    1
}

#[no_mangle]
extern "C" fn vsscript_finalize() -> c_int {
    0
}

#[no_mangle]
extern "C" fn vsscript_getApiVersion() -> c_int {
    VSSCRIPT_API_VERSION
}

#[no_mangle]
unsafe extern "C" fn vsscript_createScript(handle: *mut *mut VSScript) -> c_int {
    SCRIPTS.fetch_add(1, Ordering::SeqCst);
    *handle = Box::into_raw(Box::new(Script { clip: None, error: CString::default() })) as *mut VSScript;
    0
}

#[no_mangle]
unsafe extern "C" fn vsscript_evaluateScript(
    handle: *mut *mut VSScript,
    script: *const c_char,
    file: *const c_char,
    flags: c_int,
) -> c_int {
    let s = &mut *(*handle as *mut Script);
    let text = CStr::from_ptr(script).to_str().map_err(|e| e.to_string());
    // A script is run in the directory of the process, or in its own if so told
    let mut dir = std::env::current_dir().unwrap();
    if flags & VSEvalFlags::efSetWorkingDir as c_int != 0 && !file.is_null() {
        let file = CStr::from_ptr(file).to_str().unwrap_or("");
        dir = dir.join(Path::new(file).parent().unwrap_or(Path::new("")));
    }
    match text.and_then(|t| evaluate(t, &dir)) {
        Ok(c) => {
            s.clip = Some(c);
            0
        }
        Err(e) => {
            s.error = CString::new(e).unwrap();
            1
        }
    }
}

#[no_mangle]
unsafe extern "C" fn vsscript_freeScript(handle: *mut VSScript) {
    SCRIPTS.fetch_sub(1, Ordering::SeqCst);
    drop(Box::from_raw(handle as *mut Script));
}

#[no_mangle]
unsafe extern "C" fn vsscript_getError(handle: *mut VSScript) -> *const c_char {
    (*(handle as *mut Script)).error.as_ptr()
}

#[no_mangle]
unsafe extern "C" fn vsscript_getOutput2(
    handle: *mut VSScript,
    index: c_int,
    alpha: *mut *mut VSNodeRef,
) -> *mut VSNodeRef {
    if !alpha.is_null() {
        *alpha = std::ptr::null_mut();
    }
    match (*(handle as *mut Script)).clip {
        Some(clip) if index == 0 && !clip.no_output => {
            NODES.fetch_add(1, Ordering::SeqCst);
            let i = clip.info;
            Box::into_raw(Box::new(Node {
                clip,
                info: VSVideoInfo {
                    format: if clip.no_format { std::ptr::null() } else { &clip.format },
                    fpsNum: i.0,
                    fpsDen: i.1,
                    width: i.2,
                    height: i.3,
                    numFrames: i.4,
                    flags: 0,
                },
            })) as *mut VSNodeRef
        }
        _ => std::ptr::null_mut(),
    }
}

#[no_mangle]
unsafe extern "C" fn vsscript_getOutput(handle: *mut VSScript, index: c_int) -> *mut VSNodeRef {
    vsscript_getOutput2(handle, index, std::ptr::null_mut())
}

unsafe extern "system" fn die() {
    eprintln!("a function of VapourSynth which the stub does not have");
    std::process::abort();
}

unsafe extern "system" fn clone_node(n: *mut VSNodeRef) -> *mut VSNodeRef {
    let n = &*(n as *mut Node);
    NODES.fetch_add(1, Ordering::SeqCst);
    Box::into_raw(Box::new(Node { clip: n.clip, info: n.info })) as *mut VSNodeRef
}

unsafe extern "system" fn free_node(n: *mut VSNodeRef) {
    NODES.fetch_sub(1, Ordering::SeqCst);
    drop(Box::from_raw(n as *mut Node));
}

unsafe extern "system" fn video_info(n: *mut VSNodeRef) -> *const VSVideoInfo {
    &(*(n as *mut Node)).info
}

unsafe extern "system" fn get_frame(n: c_int, node: *mut VSNodeRef, msg: *mut c_char, size: c_int) -> *const VSFrameRef {
    let clip = (*(node as *mut Node)).clip;
    // Beyond the end VapourSynth repeats the last frame; the caller has to look at the number of frames
    if clip.frames.is_empty() || n < 0 || n == clip.bad {
        let text = b"no such frame\0";
        std::ptr::copy_nonoverlapping(text.as_ptr() as *const c_char, msg, text.len().min(size as usize));
        return std::ptr::null();
    }
    let bytes = clip.format.bytesPerSample as usize;
    let planes = clip.frames[(n as usize).min(clip.frames.len() - 1)]
        .iter()
        .map(|p| {
            let (w, h) = (p[0].len(), p.len());
            let stride = (w * bytes).div_ceil(32) * 32 + 32 * (n as usize % 2);
            let mut data = vec![0xA5u8; stride * h];
            for (y, row) in p.iter().enumerate() {
                for (x, v) in row.iter().enumerate() {
                    for b in 0..bytes {
                        data[y * stride + x * bytes + b] = (*v >> (8 * b)) as u8;
                    }
                }
            }
            (data, stride, w, h)
        })
        .collect();
    FRAMES.fetch_add(1, Ordering::SeqCst);
    Box::into_raw(Box::new(Picture { format: &clip.format, planes })) as *const VSFrameRef
}

unsafe fn pic<'a>(f: *const VSFrameRef) -> &'a Picture {
    &*(f as *const Picture)
}

unsafe extern "system" fn free_frame(f: *const VSFrameRef) {
    FRAMES.fetch_sub(1, Ordering::SeqCst);
    drop(Box::from_raw(f as *mut Picture));
}

unsafe extern "system" fn frame_format(f: *const VSFrameRef) -> *const VSFormat {
    pic(f).format
}

unsafe extern "system" fn stride(f: *const VSFrameRef, p: c_int) -> c_int {
    pic(f).planes[p as usize].1 as c_int
}

unsafe extern "system" fn data(f: *const VSFrameRef, p: c_int) -> *const u8 {
    pic(f).planes[p as usize].0.as_ptr()
}

unsafe extern "system" fn frame_width(f: *const VSFrameRef, p: c_int) -> c_int {
    pic(f).planes[p as usize].2 as c_int
}

unsafe extern "system" fn frame_height(f: *const VSFrameRef, p: c_int) -> c_int {
    pic(f).planes[p as usize].3 as c_int
}

struct Api(VSAPI);
unsafe impl Send for Api {}
unsafe impl Sync for Api {}

fn api() -> *const VSAPI {
    static API: OnceLock<Api> = OnceLock::new();
    &API.get_or_init(|| {
        // Every function is there, and most end the process
        const N: usize = std::mem::size_of::<VSAPI>() / std::mem::size_of::<usize>();
        let all = [die as *const () as usize; N];
        let mut a: VSAPI = unsafe { std::mem::transmute(all) };
        a.cloneNodeRef = clone_node;
        a.freeNode = free_node;
        a.freeFrame = free_frame;
        a.getFrame = get_frame;
        a.getVideoInfo = video_info;
        a.getFrameFormat = frame_format;
        a.getStride = stride;
        a.getReadPtr = data;
        a.getFrameWidth = frame_width;
        a.getFrameHeight = frame_height;
        Api(a)
    })
    .0
}

#[no_mangle]
extern "C" fn vsscript_getVSApi2(_version: c_int) -> *const VSAPI {
    api()
}

#[no_mangle]
extern "C" fn vsscript_getVSApi() -> *const VSAPI {
    api()
}

#[no_mangle]
extern "C" fn getVapourSynthAPI(_version: c_int) -> *const VSAPI {
    api()
}
