//! A stand-in for the cubeb C library: devices, streams and callbacks are a script's to command.
//! One audio backend per process, so tests using it run one at a time.
use std::{
    ffi::{CString, c_char, c_int, c_uint, c_void},
    sync::{LazyLock, Mutex, MutexGuard},
};

use cubeb_sys::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Dev {
    pub id: usize,
    pub device_id: Option<String>,
    pub friendly: Option<String>,
    pub typ: u32,
    pub pref: u32,
    pub state: u32,
}

#[derive(Clone, Debug)]
pub struct StreamRec {
    pub serial: usize,
    pub input: Option<(usize, u32, u32, i32, u32)>,
    pub output: Option<(usize, u32, u32, i32, u32)>,
    pub latency: u32,
    pub data: usize,
    pub state: usize,
    pub user: usize,
    pub started: bool,
    pub starts: u32,
    pub stops: u32,
    pub destroyed: bool,
}

#[derive(Default)]
pub struct Audio {
    pub init_fails: bool,
    pub contexts: i64,
    /// by type: 1 input, 2 output
    pub devices: [Vec<Dev>; 3],
    pub changed: [Option<(usize, usize)>; 3],
    pub register_fails: [bool; 3],
    pub enumerate_fails: bool,
    pub enumerations: u32,
    pub outstanding_collections: i64,
    pub streams: Vec<StreamRec>,
    /// how many of the next calls fail
    pub fail_init: u32,
    pub fail_start: u32,
    pub fail_stop: u32,
    pub fail_latency: bool,
    pub min_latency: Option<u32>,
    pub latency: u32,
    pub errors: Vec<String>,
    pub log_cb: Option<usize>,
}

pub static STATE: LazyLock<Mutex<Audio>> = LazyLock::new(Default::default);

pub fn st() -> MutexGuard<'static, Audio> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

/// A new audio world. The log callback stays, as ringrtc sets it only once.
pub fn reset() {
    let mut s = st();
    let log_cb = s.log_cb;
    *s = Audio { log_cb, min_latency: Some(480), ..Default::default() };
}

/// Tell ringrtc the devices of this type changed. False if nobody listens.
pub fn notify(typ: usize) -> bool {
    let Some((cb, data)) = st().changed[typ] else { return false };
    let cb: unsafe extern "C" fn(*mut cubeb, *mut c_void) = unsafe { std::mem::transmute(cb) };
    unsafe { cb(std::ptr::null_mut(), data as *mut c_void) };
    true
}

/// Log a line as the backend would.
pub fn log_line(text: &std::ffi::CStr) -> bool {
    let Some(cb) = st().log_cb else { return false };
    let cb: unsafe extern "C" fn(*const c_char, ...) = unsafe { std::mem::transmute(cb) };
    unsafe { cb(c"%s".as_ptr(), text.as_ptr()) };
    true
}

impl Audio {
    pub fn live(&self, output: bool) -> Vec<&StreamRec> {
        self.streams
            .iter()
            .filter(|s| !s.destroyed && if output { s.output.is_some() } else { s.input.is_some() })
            .collect()
    }
}

fn callback(serial: usize) -> (cubeb_data_callback, usize) {
    let s = st();
    let r = s.streams.iter().find(|r| r.serial == serial).expect("stream");
    assert!(!r.destroyed);
    let f: cubeb_data_callback = unsafe { std::mem::transmute::<usize, cubeb_data_callback>(r.data) };
    (f, r.user)
}
fn handle(serial: usize) -> *mut cubeb_stream {
    (0x1000 + serial * 16) as *mut cubeb_stream
}
fn serial_of(p: *mut cubeb_stream) -> usize {
    ((p as usize).wrapping_sub(0x1000)) / 16
}
/// The microphone delivers.
pub fn feed(serial: usize, samples: &[i16]) -> i64 {
    let (f, user) = callback(serial);
    unsafe {
        f.unwrap()(
            handle(serial),
            user as *mut c_void,
            samples.as_ptr() as *const c_void,
            std::ptr::null_mut(),
            samples.len() as _,
        ) as i64
    }
}
/// The speaker asks for `n` stereo frames.
pub fn pull(serial: usize, n: usize) -> (i64, Vec<[i16; 2]>) {
    let (f, user) = callback(serial);
    let mut out = vec![[0x5a5ai16; 2]; n];
    let r = unsafe {
        f.unwrap()(
            handle(serial),
            user as *mut c_void,
            std::ptr::null(),
            out.as_mut_ptr() as *mut c_void,
            n as _,
        ) as i64
    };
    (r, out)
}

const CTX: *mut cubeb = 0x40 as *mut cubeb;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_init(
    context: *mut *mut cubeb,
    _name: *const c_char,
    _backend: *const c_char,
) -> c_int {
    let mut s = st();
    if s.init_fails {
        return CUBEB_ERROR;
    }
    s.contexts += 1;
    unsafe { *context = CTX };
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_get_backend_id(_: *mut cubeb) -> *const c_char {
    c"scripted".as_ptr()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_get_max_channel_count(_: *mut cubeb, n: *mut c_uint) -> c_int {
    unsafe { *n = 2 };
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_get_min_latency(
    _: *mut cubeb,
    _: *mut cubeb_stream_params,
    n: *mut c_uint,
) -> c_int {
    match st().min_latency {
        Some(l) => {
            unsafe { *n = l };
            CUBEB_OK
        }
        None => CUBEB_ERROR,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_get_preferred_sample_rate(_: *mut cubeb, n: *mut c_uint) -> c_int {
    unsafe { *n = 48000 };
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_get_supported_input_processing_params(
    _: *mut cubeb,
    p: *mut cubeb_input_processing_params,
) -> c_int {
    unsafe { *p = 0 };
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_destroy(_: *mut cubeb) {
    let mut s = st();
    s.contexts -= 1;
    if s.streams.iter().any(|r| !r.destroyed) {
        s.errors.push("context destroyed before its streams".into());
    }
    if s.changed[1].is_some() || s.changed[2].is_some() {
        s.errors.push("context destroyed with device callbacks still registered".into());
    }
}
fn params(dev: cubeb_devid, p: *mut cubeb_stream_params) -> Option<(usize, u32, u32, i32, u32)> {
    if p.is_null() {
        return None;
    }
    let p = unsafe { &*p };
    Some((dev as usize, p.rate, p.channels, p.format as i32, p.prefs as u32))
}
#[unsafe(no_mangle)]
#[allow(clippy::too_many_arguments)]
pub unsafe extern "C" fn cubeb_stream_init(
    _: *mut cubeb,
    stream: *mut *mut cubeb_stream,
    _name: *const c_char,
    input_device: cubeb_devid,
    input: *mut cubeb_stream_params,
    output_device: cubeb_devid,
    output: *mut cubeb_stream_params,
    latency: c_uint,
    data: cubeb_data_callback,
    state: cubeb_state_callback,
    user: *mut c_void,
) -> c_int {
    let mut s = st();
    if s.fail_init > 0 {
        s.fail_init -= 1;
        return CUBEB_ERROR;
    }
    let serial = s.streams.len();
    s.streams.push(StreamRec {
        serial,
        input: params(input_device, input),
        output: params(output_device, output),
        latency,
        data: unsafe { std::mem::transmute::<cubeb_data_callback, usize>(data) },
        state: unsafe { std::mem::transmute::<cubeb_state_callback, usize>(state) },
        user: user as usize,
        started: false,
        starts: 0,
        stops: 0,
        destroyed: false,
    });
    unsafe { *stream = handle(serial) };
    CUBEB_OK
}
fn on(p: *mut cubeb_stream, what: &str, f: impl FnOnce(&mut StreamRec)) {
    let mut s = st();
    let n = serial_of(p);
    let dead = match s.streams.get(n) {
        None => true,
        Some(r) => r.destroyed,
    };
    if dead {
        s.errors.push(format!("{what} on a stream that is gone"));
        return;
    }
    f(&mut s.streams[n]);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_destroy(p: *mut cubeb_stream) {
    on(p, "destroy", |r| {
        r.destroyed = true;
        r.started = false;
    });
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_start(p: *mut cubeb_stream) -> c_int {
    {
        let mut s = st();
        if s.fail_start > 0 {
            s.fail_start -= 1;
            return CUBEB_ERROR;
        }
    }
    on(p, "start", |r| {
        r.started = true;
        r.starts += 1;
    });
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_stop(p: *mut cubeb_stream) -> c_int {
    {
        let mut s = st();
        if s.fail_stop > 0 {
            s.fail_stop -= 1;
            return CUBEB_ERROR;
        }
    }
    on(p, "stop", |r| {
        r.started = false;
        r.stops += 1;
    });
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_get_position(_: *mut cubeb_stream, n: *mut u64) -> c_int {
    unsafe { *n = 0 };
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_get_latency(p: *mut cubeb_stream, n: *mut c_uint) -> c_int {
    on(p, "get_latency", |_| {});
    let s = st();
    if s.fail_latency {
        return CUBEB_ERROR;
    }
    unsafe { *n = s.latency };
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_get_input_latency(_: *mut cubeb_stream, n: *mut c_uint) -> c_int {
    // Not the playout latency: a mix-up must show.
    unsafe { *n = 96_000 };
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_set_volume(_: *mut cubeb_stream, _: f32) -> c_int {
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_set_name(_: *mut cubeb_stream, _: *const c_char) -> c_int {
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_get_current_device(
    _: *mut cubeb_stream,
    _: *mut *mut cubeb_device,
) -> c_int {
    CUBEB_ERROR
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_set_input_mute(_: *mut cubeb_stream, _: c_int) -> c_int {
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_set_input_processing_params(
    _: *mut cubeb_stream,
    _: cubeb_input_processing_params,
) -> c_int {
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_device_destroy(_: *mut cubeb_stream, _: *mut cubeb_device) -> c_int {
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_register_device_changed_callback(
    _: *mut cubeb_stream,
    _: cubeb_device_changed_callback,
) -> c_int {
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_stream_user_ptr(p: *mut cubeb_stream) -> *mut c_void {
    // Asked for while a stream is being dropped, so a destroyed stream may answer.
    st().streams.get(serial_of(p)).map_or(std::ptr::null_mut(), |r| r.user as *mut c_void)
}

fn c(t: &Option<String>) -> *const c_char {
    match t {
        None => std::ptr::null(),
        Some(t) => CString::new(t.as_str()).unwrap().into_raw(),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_enumerate_devices(
    _: *mut cubeb,
    typ: cubeb_device_type,
    out: *mut cubeb_device_collection,
) -> c_int {
    let mut s = st();
    s.enumerations += 1;
    if s.enumerate_fails {
        return CUBEB_ERROR;
    }
    let Some(list) = s.devices.get(typ as usize).filter(|_| typ == 1 || typ == 2) else {
        s.errors.push(format!("enumerated devices of type {typ}"));
        return CUBEB_ERROR;
    };
    let mut v: Vec<cubeb_device_info> = list
        .iter()
        .map(|d| cubeb_device_info {
            devid: d.id as cubeb_devid,
            device_id: c(&d.device_id),
            friendly_name: c(&d.friendly),
            group_id: c(&Some(format!("group-{}", d.id))),
            vendor_name: std::ptr::null(),
            device_type: d.typ as _,
            state: d.state as _,
            preferred: d.pref as _,
            format: CUBEB_DEVICE_FMT_S16LE,
            default_format: CUBEB_DEVICE_FMT_S16LE,
            max_channels: 2,
            default_rate: 48000,
            max_rate: 48000,
            min_rate: 8000,
            latency_lo: 1,
            latency_hi: 2,
        })
        .collect();
    v.shrink_to_fit();
    let n = v.len();
    let p = Box::into_raw(v.into_boxed_slice()) as *mut cubeb_device_info;
    unsafe {
        (*out).device = p;
        (*out).count = n;
    }
    s.outstanding_collections += 1;
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_device_collection_destroy(
    _: *mut cubeb,
    out: *mut cubeb_device_collection,
) -> c_int {
    let mut s = st();
    s.outstanding_collections -= 1;
    unsafe {
        let v = Box::from_raw(std::ptr::slice_from_raw_parts_mut((*out).device, (*out).count));
        for d in v.iter() {
            for p in [d.device_id, d.friendly_name, d.group_id] {
                if !p.is_null() {
                    drop(CString::from_raw(p as *mut c_char));
                }
            }
        }
        (*out).device = std::ptr::null_mut();
        (*out).count = 0;
    }
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_register_device_collection_changed(
    _: *mut cubeb,
    typ: cubeb_device_type,
    cb: cubeb_device_collection_changed_callback,
    user: *mut c_void,
) -> c_int {
    let mut s = st();
    let t = typ as usize;
    if t != 1 && t != 2 {
        s.errors.push(format!("callback for device type {typ}"));
        return CUBEB_ERROR;
    }
    if s.register_fails[t] && cb.is_some() {
        return CUBEB_ERROR;
    }
    s.changed[t] = cb.map(|f| (f as usize, user as usize));
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_set_log_callback(_: cubeb_log_level, cb: cubeb_log_callback) -> c_int {
    st().log_cb = cb.map(|f| f as usize);
    CUBEB_OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_log_get_callback() -> cubeb_log_callback {
    match st().log_cb {
        None => None,
        Some(p) => unsafe { std::mem::transmute::<usize, cubeb_log_callback>(p) },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_log_get_level() -> cubeb_log_level {
    if st().log_cb.is_some() { 1 } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn cubeb_async_log_reset_threads() {}
