//! N05 audio devices, N06 audio data, N09 what is logged about devices: ringrtc's audio device
//! module, driven from both sides (the app and the media engine) on top of a scripted audio
//! backend. There is one backend per process, so these run one case at a time.
use std::{
    ffi::CString,
    sync::{Arc, Mutex, Once, mpsc},
    time::{Duration, Instant},
};

use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, seq};
use proptest::{collection::vec, option, prelude::*, sample::select};
use ringrtc::webrtc::{
    audio_device_module::AudioDeviceModule,
    peer_connection_factory::{AudioDevice, AudioDeviceObserver, PeerConnectionFactory},
};
use serde::{Deserialize, Serialize};

use crate::{
    fake::{self, AUDIO, Play, new_global_world},
    fake_cubeb::{self as cb, Dev, st},
};

const IN: usize = 1;
const OUT: usize = 2;

// ---------------------------------------------------------------- both sides of the module

type Heard = Arc<Mutex<Vec<(usize, Vec<Option<AudioDevice>>)>>>;
#[derive(Debug)]
struct Watch {
    heard: Heard,
    gone: mpsc::Sender<()>,
}
impl AudioDeviceObserver for Watch {
    fn output_changed(&self, d: Vec<Option<AudioDevice>>) {
        self.heard.lock().unwrap().push((OUT, d));
    }
    fn input_changed(&self, d: Vec<Option<AudioDevice>>) {
        self.heard.lock().unwrap().push((IN, d));
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        let _ = self.gone.send(());
    }
}

/// The media engine's view: a table of functions in the order of the C++ header.
struct Engine {
    adm: usize,
    table: usize,
}
macro_rules! call {
    ($e:expr, $n:expr, ($($a:expr => $t:ty),*) -> $r:ty) => {{
        let f: extern "C" fn(usize, $($t),*) -> $r =
            unsafe { std::mem::transmute(*($e.table as *const usize).add($n)) };
        f($e.adm, $($a),*)
    }};
}
const INIT_PLAYOUT: usize = 9;
const INIT_RECORDING: usize = 12;
const START_PLAYOUT: usize = 14;
const STOP_PLAYOUT: usize = 15;
const START_RECORDING: usize = 17;
const STOP_RECORDING: usize = 18;
impl Engine {
    fn act(&self, n: usize) -> i32 {
        call!(self, n, () -> i32)
    }
    fn flag(&self, n: usize) -> bool {
        call!(self, n, () -> bool)
    }
    fn count(&self, typ: usize) -> i16 {
        call!(self, if typ == OUT { 4 } else { 5 }, () -> i16)
    }
    fn name(&self, typ: usize, index: u16) -> (i32, Vec<u8>, Vec<u8>) {
        let (mut a, mut b) = (vec![0xEEu8; 132], vec![0xEEu8; 132]);
        let r = call!(self, if typ == OUT { 6 } else { 7 },
            (index => u16, a.as_mut_ptr() => *mut u8, b.as_mut_ptr() => *mut u8) -> i32);
        (r, a, b)
    }
    fn available(&self, typ: usize) -> (i32, bool) {
        let mut b = false;
        let r = call!(self, if typ == OUT { 8 } else { 11 }, (&mut b => *mut bool) -> i32);
        (r, b)
    }
    fn delay(&self) -> (i32, u16) {
        let mut d = 0xABCDu16;
        let r = call!(self, 46, (&mut d => *mut u16) -> i32);
        (r, d)
    }
}

pub struct Rig {
    pcf: PeerConnectionFactory,
    engine: Engine,
    heard: Heard,
    gone_tx: mpsc::Sender<()>,
    gone: mpsc::Receiver<()>,
}
impl Rig {
    fn new(observer: bool) -> Result<Rig, String> {
        let heard: Heard = Default::default();
        let (gone_tx, gone) = mpsc::channel();
        let watch = || Box::new(Watch { heard: heard.clone(), gone: gone_tx.clone() });
        let pcf = PeerConnectionFactory::new(
            &Default::default(),
            false,
            "",
            if observer { Some(watch()) } else { None },
        )
        .map_err(|e| e.to_string())?;
        let (adm, table) = *fake::ADM.lock().unwrap();
        if adm == 0 {
            return Err("no audio device module".into());
        }
        let mut r = Rig { pcf, engine: Engine { adm, table }, heard, gone_tx, gone };
        if !observer {
            r.watch();
        }
        r.settle();
        Ok(r)
    }
    fn watch(&mut self) {
        let w = Box::new(Watch { heard: self.heard.clone(), gone: self.gone_tx.clone() });
        let m = unsafe { &*(self.engine.adm as *const Mutex<AudioDeviceModule>) };
        m.lock().unwrap().register_audio_device_callback(w).unwrap();
    }
    /// Returns once the module's worker is done with everything asked of it so far: observers
    /// replace one another in that same queue.
    fn settle(&mut self) {
        self.watch();
        self.gone.recv_timeout(Duration::from_secs(60)).expect("the audio worker answers");
    }
    fn heard(&self) -> Vec<(usize, Vec<Option<AudioDevice>>)> {
        std::mem::take(&mut *self.heard.lock().unwrap())
    }
}

// ---------------------------------------------------------------- the model

/// What an app sees of a list of devices.
fn listing(devs: &[Dev]) -> Vec<Option<AudioDevice>> {
    let (default, rest) = usable(devs);
    if rest.is_empty() && default.is_none() {
        return vec![];
    }
    let show = |d: &Dev, i: usize| AudioDevice {
        name: if i == 0 {
            format!("default ({})", d.friendly.as_ref().unwrap())
        } else {
            d.friendly.clone().unwrap()
        },
        unique_id: d
            .device_id
            .clone()
            .unwrap_or_else(|| format!("{}-{}", d.friendly.as_ref().unwrap(), i)),
        i18n_key: String::new(),
    };
    let mut out = vec![default.map(|d| show(d, 0))];
    out.extend(rest.iter().enumerate().map(|(i, d)| Some(show(d, i + 1))));
    out
}
fn usable(devs: &[Dev]) -> (Option<&Dev>, Vec<&Dev>) {
    let on: Vec<&Dev> = devs.iter().filter(|d| d.friendly.is_some() && d.state == 2).collect();
    let default = on.iter().copied().find(|d| d.pref & 2 != 0);
    let monitor =
        |d: &Dev| d.typ == 1 && d.device_id.as_ref().is_some_and(|i| i.ends_with(".monitor"));
    (default, on.into_iter().filter(|d| !monitor(d)).collect())
}
fn nth(devs: &[Dev], index: usize) -> Option<usize> {
    let (default, rest) = usable(devs);
    if index == 0 {
        default.map(|d| d.id)
    } else {
        rest.get(index - 1).map(|d| d.id)
    }
}

#[derive(Clone, Debug)]
struct Live {
    dev: usize,
    started: bool,
    latency: u32,
    /// audio not handed on yet; None once an error made it unspecified
    pending: Option<Vec<i16>>,
}
#[derive(Clone, Debug, Default)]
struct Side {
    devs: Vec<Dev>,
    device: Option<usize>,
    stream: Option<Live>,
    wanted: bool,
    /// microphone only: warming up, nothing goes to the engine
    warming: bool,
}
#[derive(Clone, Copy, Default)]
struct Faults {
    init: bool,
    start: bool,
    stop: bool,
}
type Did = Result<(), ()>;
fn take(f: &mut bool) -> bool {
    std::mem::take(f)
}
impl Side {
    fn init(&mut self, f: &mut Faults, latency: u32) -> Did {
        if self.warming && self.stream.is_some() {
            return Ok(());
        }
        let Some(dev) = self.device.or_else(|| nth(&self.devs, 0)) else { return Err(()) };
        self.device = Some(dev);
        self.warming = false;
        if take(&mut f.init) {
            return Err(());
        }
        self.stream = Some(Live { dev, started: false, latency, pending: Some(vec![]) });
        Ok(())
    }
    fn start(&mut self, f: &mut Faults, warm: bool) -> Did {
        self.wanted = true;
        let was_warming = std::mem::replace(&mut self.warming, warm);
        if was_warming {
            return Ok(());
        }
        let s = self.stream.as_mut().ok_or(())?;
        if take(&mut f.start) {
            return Err(());
        }
        s.started = true;
        Ok(())
    }
    fn stop(&mut self, f: &mut Faults) -> Did {
        self.wanted = false;
        if self.stream.is_some() {
            self.warming = false;
            if take(&mut f.stop) {
                return Err(());
            }
            self.stream = None;
        }
        Ok(())
    }
    fn switch(&mut self, f: &mut Faults, dev: usize, latency: u32) -> Did {
        let (had, wanted, warming) = (self.stream.is_some(), self.wanted, self.warming);
        if had {
            self.stop(f)?;
        }
        self.device = Some(dev);
        if had {
            self.init(f, latency)?;
        }
        if wanted {
            self.start(f, warming)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// (type, devices, told of it, enumeration fails)
    Devices(u8, Vec<Dev>, bool, bool),
    /// a change of nothing
    Spurious(u8),
    ByIndex(u8, usize, u8),
    /// the n-th listed id, or an unknown one
    ById(u8, Option<usize>, u8),
    Init(u8, u8),
    Start(u8, u8),
    Stop(u8, u8),
    Warmup(bool, u8),
    Processing(bool, u8),
    MinLatency(Option<u32>),
    Delay(u32, bool),
    Feed(usize, Vec<i32>),
    Pull(usize, Vec<(i32, usize)>),
}
fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[A-Z][a-z]{0,10}( [A-Z][a-z]{1,8}){0,2}",
        1 => "[a-z]{120,140}",
        1 => "[äöü你好🎤]{1,70}",
        1 => "a{0,3}[你好]{40,50}",
        1 => Just(String::new()),
    ]
}
fn devices(typ: usize) -> impl Strategy<Value = Vec<Dev>> {
    let one = (
        option::weighted(0.9, name()),
        0u8..8,
        prop_oneof![3 => Just(0u32), 2 => Just(2u32), 1 => select(vec![1, 3, 4, 5, 6, 7])],
        prop_oneof![5 => Just(2u32), 1 => Just(0u32), 1 => Just(1u32)],
    );
    (vec(one, 0..5), any::<u64>()).prop_map(move |(v, order)| {
        // Devices keep who they are (slot) while lists of them come and go.
        let mut slots: Vec<usize> = (0..5).collect();
        let mut o = order;
        for i in (1..5).rev() {
            slots.swap(i, (o % (i as u64 + 1)) as usize);
            o /= 7;
        }
        v.into_iter()
            .zip(slots)
            .map(|((friendly, id, pref, state), slot)| Dev {
                id: 0x100 * typ + slot,
                device_id: match id {
                    0 => None,
                    1 | 2 => Some(format!("slot{slot}.monitor")),
                    3 => Some(format!("{}-slot{slot}", "識".repeat(41 + slot))),
                    _ => Some(format!("slot{slot}")),
                },
                friendly,
                typ: typ as u32,
                pref,
                state,
            })
            .collect()
    })
}
fn plain_devices(typ: usize) -> impl Strategy<Value = Vec<Dev>> {
    (1usize..4, 0usize..4).prop_map(move |(n, d)| {
        (0..n)
            .map(|slot| Dev {
                id: 0x100 * typ + slot,
                device_id: Some(format!("slot{slot}")),
                friendly: Some(format!("Device {slot}")),
                typ: typ as u32,
                pref: if slot == d % n { 2 } else { 0 },
                state: 2,
            })
            .collect()
    })
}
fn any_devices(typ: usize) -> impl Strategy<Value = Vec<Dev>> {
    prop_oneof![2 => devices(typ), 1 => plain_devices(typ)]
}
fn typ() -> impl Strategy<Value = u8> {
    1u8..3
}
fn faults() -> impl Strategy<Value = u8> {
    prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(4u8)]
}
fn device_op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (typ(), prop::bool::weighted(0.9), prop::bool::weighted(0.1)).prop_flat_map(|(t, told, fails)| {
            any_devices(t as usize).prop_map(move |d| Op::Devices(t, d, told, fails))
        }),
        1 => typ().prop_map(Op::Spurious),
        3 => (typ(), 0usize..6, faults()).prop_map(|(a, b, c)| Op::ByIndex(a, b, c)),
        3 => (typ(), option::weighted(0.8, 0usize..6), faults()).prop_map(|(a, b, c)| Op::ById(a, b, c)),
        3 => (typ(), faults()).prop_map(|(a, b)| Op::Init(a, b)),
        3 => (typ(), faults()).prop_map(|(a, b)| Op::Start(a, b)),
        2 => (typ(), faults()).prop_map(|(a, b)| Op::Stop(a, b)),
        1 => (any::<bool>(), faults()).prop_map(|(a, b)| Op::Warmup(a, b)),
        1 => (any::<bool>(), faults()).prop_map(|(a, b)| Op::Processing(a, b)),
        1 => option::of(0u32..2000).prop_map(Op::MinLatency),
        1 => (0u32..4_000_000, prop::bool::weighted(0.2)).prop_map(|(a, b)| Op::Delay(a, b)),
    ]
    .boxed()
}
fn size() -> impl Strategy<Value = usize> {
    prop_oneof![
        2 => select(vec![480, 960, 479, 481, 1, 240, 441, 0, 1440]),
        3 => 0usize..1100,
    ]
}
fn data_op() -> BoxedStrategy<Op> {
    let rets = vec(prop_oneof![30 => Just(0i32), 1 => Just(3), 1 => Just(-1), 1 => -9i32..0], 0..3);
    let plays = vec(
        (
            prop_oneof![30 => Just(0i32), 1 => Just(1), 2 => -5i32..0],
            prop_oneof![10 => Just(480usize), 2 => 0usize..480, 1 => 481usize..2000],
        ),
        0..5,
    );
    prop_oneof![
        6 => (size(), rets).prop_map(|(n, r)| Op::Feed(n, r)),
        6 => (size(), plays).prop_map(|(n, p)| Op::Pull(n, p)),
        1 => (typ(), Just(0u8)).prop_map(|(a, b)| Op::Init(a, b)),
        1 => (typ(), Just(0u8)).prop_map(|(a, b)| Op::Start(a, b)),
        1 => (typ(), faults()).prop_map(|(a, b)| Op::Stop(a, b)),
        1 => (any::<bool>(), Just(0u8)).prop_map(|(a, b)| Op::Warmup(a, b)),
        1 => (typ(), 0usize..3).prop_map(|(a, b)| Op::ByIndex(a, b, 0)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    inputs: Vec<Dev>,
    outputs: Vec<Dev>,
    observer: bool,
    ops: Vec<Op>,
}
fn session() -> impl Strategy<Value = Session> {
    (any_devices(IN), any_devices(OUT), any::<bool>(), vec(device_op(), 1..24)).prop_map(
        |(inputs, outputs, observer, ops)| Session { inputs, outputs, observer, ops },
    )
}
fn audio_session() -> impl Strategy<Value = Session> {
    let begin = vec![Op::Init(1, 0), Op::Init(2, 0), Op::Start(1, 0), Op::Start(2, 0)];
    (
        plain_devices(IN),
        plain_devices(OUT),
        prop::bool::weighted(0.8),
        vec(data_op(), 1..40),
    )
        .prop_map(move |(inputs, outputs, prepared, mut ops)| {
            if prepared {
                ops.splice(0..0, begin.clone());
            }
            Session { inputs, outputs, observer: true, ops }
        })
}

// ---------------------------------------------------------------- N05, N06

fn cut(text: &str) -> Vec<u8> {
    let mut n = text.len().min(127);
    while !text.is_char_boundary(n) {
        n -= 1;
    }
    let mut v = text.as_bytes()[..n].to_vec();
    v.push(0);
    v
}
fn known(devs: &[Dev]) -> Vec<Dev> {
    devs.iter().filter(|d| d.friendly.is_some()).cloned().collect()
}

fn check_session(i: &Session, o: &mut Obs) -> Res {
    let world = new_global_world();
    cb::reset();
    *AUDIO.lock().unwrap() = Default::default();
    {
        let mut s = st();
        s.devices[IN] = i.inputs.clone();
        s.devices[OUT] = i.outputs.clone();
        s.min_latency = None;
    }
    let mut rig = Rig::new(i.observer)?;
    ensure_eq!(rig.pcf.audio_backend(), Some("scripted".to_string()));
    ensure!(rig.heard().is_empty(), "told of devices that were there from the start");
    let mut side = [Side::default(), Side::default(), Side::default()];
    side[IN].devs = known(&i.inputs);
    side[OUT].devs = known(&i.outputs);
    // Flags the engine asks for, and whether devices were picked by number.
    let mut attempted = [[false; 2]; 3];
    let mut picked = [Some(false); 3];
    let mut processing = false;
    let mut latency = 480;
    let mut delay_known = true;
    let mut next_sample = 1i16;
    for (step, op) in i.ops.iter().enumerate() {
        let mut f = Faults::default();
        let mut told: Vec<(usize, Vec<Option<AudioDevice>>)> = vec![];
        let mut arm = |bits: u8| {
            f = Faults { init: bits & 1 != 0, start: bits & 2 != 0, stop: bits & 4 != 0 };
            let mut s = st();
            s.fail_init = f.init as u32;
            s.fail_start = f.start as u32;
            s.fail_stop = f.stop as u32;
        };
        match op {
            Op::Devices(t, list, notify, fails) => {
                let t = *t as usize;
                {
                    let mut s = st();
                    s.devices[t] = list.clone();
                    s.enumerate_fails = *fails;
                }
                if *notify {
                    ensure!(cb::notify(t), "nobody listens for device changes");
                    rig.settle();
                    let new = known(list);
                    if !*fails && new != side[t].devs {
                        told.push((t, listing(&new)));
                        if let Some(d) = side[t].device
                            && !new.iter().any(|x| x.id == d && x.state == 2)
                        {
                            side[t].device = None;
                            o.label("selected device unplugged");
                        }
                        side[t].devs = new;
                    }
                }
                st().enumerate_fails = false;
                // Whether or not told before: what follows is about a list that is known.
                if !*notify || *fails {
                    cb::notify(t);
                    rig.settle();
                    let new = known(list);
                    if new != side[t].devs {
                        told.push((t, listing(&new)));
                        if let Some(d) = side[t].device
                            && !new.iter().any(|x| x.id == d && x.state == 2)
                        {
                            side[t].device = None;
                        }
                        side[t].devs = new;
                    }
                }
            }
            Op::Spurious(t) => {
                ensure!(cb::notify(*t as usize));
            }
            Op::ByIndex(t, n, bits) => {
                arm(*bits);
                let t = *t as usize;
                let list = listing(&side[t].devs);
                let r = if t == OUT {
                    rig.pcf.set_audio_playout_device(*n)
                } else {
                    rig.pcf.set_audio_recording_device(*n)
                };
                ensure_eq!(r.is_ok(), *n < list.len() || list.is_empty(), "device {} of {}", n, list.len());
                if r.is_ok() {
                    picked[t] = Some(true);
                    if let Some(d) = nth(&side[t].devs, *n) {
                        let _ = side[t].switch(&mut f, d, latency);
                        o.label_if(side[t].stream.is_some(), "device switched in a call");
                        o.nontrivial();
                    }
                }
            }
            Op::ById(t, n, bits) => {
                arm(*bits);
                let t = *t as usize;
                let list = listing(&side[t].devs);
                let pick = n.and_then(|n| list.get(n).cloned().flatten());
                let id = pick.as_ref().map_or("nosuch", |d| &d.unique_id);
                let r = if t == OUT {
                    rig.pcf.set_audio_playout_device_by_id(id)
                } else {
                    rig.pcf.set_audio_recording_device_by_id(id)
                };
                ensure_eq!(r.is_ok(), pick.is_some() || list.is_empty(), "device {id}");
                if let Some(d) = &pick {
                    picked[t] = None;
                    let at = list.iter().position(|x| x.as_ref().is_some_and(|x| x.unique_id == d.unique_id));
                    let dev = nth(&side[t].devs, at.unwrap()).unwrap();
                    let _ = side[t].switch(&mut f, dev, latency);
                    o.label_if(side[t].stream.is_some(), "device switched in a call");
                    o.nontrivial();
                }
            }
            Op::Init(t, bits) => {
                arm(*bits);
                let t = *t as usize;
                attempted[t][0] = true;
                ensure_eq!(rig.engine.act(if t == OUT { INIT_PLAYOUT } else { INIT_RECORDING }), 0);
                let _ = side[t].init(&mut f, latency);
            }
            Op::Start(t, bits) => {
                arm(*bits);
                let t = *t as usize;
                attempted[t][1] = true;
                ensure_eq!(rig.engine.act(if t == OUT { START_PLAYOUT } else { START_RECORDING }), 0);
                let _ = side[t].start(&mut f, false);
            }
            Op::Stop(t, bits) => {
                arm(*bits);
                let t = *t as usize;
                attempted[t] = [false; 2];
                ensure_eq!(rig.engine.act(if t == OUT { STOP_PLAYOUT } else { STOP_RECORDING }), 0);
                let _ = side[t].stop(&mut f);
            }
            Op::Warmup(on, bits) => {
                arm(*bits);
                ensure!(rig.pcf.set_audio_warmup(*on).is_ok());
                if *on {
                    attempted[IN][0] = true;
                    let _ = side[IN].init(&mut f, latency);
                    let _ = side[IN].start(&mut f, true);
                    o.label("microphone warm-up");
                } else {
                    attempted[IN] = [false; 2];
                    let _ = side[IN].stop(&mut f);
                }
            }
            Op::Processing(on, bits) => {
                arm(*bits);
                ensure!(rig.pcf.set_input_voice_processing_enabled(*on).is_ok());
                if *on != processing {
                    processing = *on;
                    if let Some(d) = side[IN].device {
                        let _ = side[IN].switch(&mut f, d, latency);
                    }
                }
            }
            Op::MinLatency(l) => {
                st().min_latency = *l;
                latency = l.unwrap_or(480).max(480);
            }
            Op::Delay(samples, fails) => {
                {
                    let mut s = st();
                    s.latency = *samples;
                    s.fail_latency = *fails;
                }
                let begin = Instant::now();
                let (r, d) = rig.engine.delay();
                if r != 0 && begin.elapsed() >= Duration::from_millis(45) {
                    // Too late to be of use: allowed, but leaves an answer behind.
                    delay_known = false;
                } else if delay_known {
                    let good = side[OUT].stream.is_some() && !fails;
                    ensure_eq!(r, if good { 0 } else { -1 });
                    ensure_eq!(d, if good { (samples / 48) as u16 } else { 0xABCD });
                }
                rig.settle();
                st().fail_latency = false;
            }
            Op::Feed(n, rets) => {
                let serial = st().live(false).iter().filter(|s| s.started).map(|s| s.serial).next_back();
                let Some(serial) = serial else { continue };
                let Some(l) = side[IN].stream.as_mut().filter(|l| l.started) else {
                    fail!("a microphone runs that nobody started")
                };
                let samples: Vec<i16> = (0..*n)
                    .map(|_| {
                        next_sample = next_sample.wrapping_mul(31).wrapping_add(17);
                        next_sample
                    })
                    .collect();
                {
                    let mut a = AUDIO.lock().unwrap();
                    a.recorded.clear();
                    a.record_rets = rets.iter().copied().collect();
                }
                let r = cb::feed(serial, &samples);
                let got = std::mem::take(&mut AUDIO.lock().unwrap().recorded);
                for g in &got {
                    ensure_eq!((g.n_samples, g.bytes_per_sample, g.channels, g.rate), (480, 2, 1, 48_000));
                    ensure_eq!(g.fixed, (0, 0, 0, false, -1));
                }
                if side[IN].warming {
                    ensure!(got.is_empty(), "the microphone is heard while warming up");
                    ensure_eq!(r, *n as i64);
                    continue;
                }
                let Some(p) = l.pending.as_mut() else { continue };
                p.extend(&samples);
                let mut want = vec![];
                let mut ret = *n as i64;
                let mut rets = rets.iter();
                while p.len() >= 480 {
                    want.push(p.drain(..480).collect::<Vec<_>>());
                    let x = *rets.next().unwrap_or(&0);
                    if x < 0 {
                        ret = x as i64;
                        l.pending = None;
                        break;
                    }
                }
                o.nontrivial_if(want.len() > 1);
                ensure_eq!(got.into_iter().map(|g| g.samples).collect::<Vec<_>>(), want);
                ensure_eq!(r, ret, "frames taken");
            }
            Op::Pull(n, plays) => {
                let serial = st().live(true).iter().filter(|s| s.started).map(|s| s.serial).next_back();
                let Some(serial) = serial else { continue };
                let Some(l) = side[OUT].stream.as_mut().filter(|l| l.started) else {
                    fail!("a speaker runs that nobody started")
                };
                let plays: Vec<Play> = plays
                    .iter()
                    .map(|(ret, claim)| Play {
                        ret: *ret,
                        claim: *claim,
                        data: (0..*claim)
                            .map(|_| {
                                next_sample = next_sample.wrapping_mul(31).wrapping_add(17);
                                next_sample
                            })
                            .collect(),
                    })
                    .collect();
                {
                    let mut a = AUDIO.lock().unwrap();
                    a.plays = plays.iter().cloned().collect();
                    a.play_requests.clear();
                }
                let (r, out) = cb::pull(serial, *n);
                let requests = std::mem::take(&mut AUDIO.lock().unwrap().play_requests);
                for q in &requests {
                    ensure_eq!(*q, (480, 2, 1, 48_000));
                }
                let Some(p) = l.pending.as_mut() else { continue };
                let mut asked = 0;
                let mut error = None;
                while p.len() < *n {
                    let x = plays.get(asked).cloned().unwrap_or(Play { ret: 0, claim: 0, data: vec![] });
                    asked += 1;
                    if x.ret < 0 {
                        error = Some(x.ret as i64);
                        break;
                    }
                    if x.ret != 0 || x.claim == 0 {
                        break;
                    }
                    p.extend(x.data.iter().take(480));
                }
                ensure_eq!(requests.len(), asked, "requests for audio");
                if let Some(e) = error {
                    ensure_eq!(r, e, "an error of the engine reaches the speaker");
                    l.pending = None;
                    continue;
                }
                o.nontrivial_if(asked > 1);
                let play: Vec<i16> = p.drain(..(*n).min(p.len())).collect();
                ensure_eq!(r, play.len() as i64, "frames played");
                for (k, f) in out.iter().enumerate() {
                    let want = play.get(k).copied().unwrap_or(0x5a5a);
                    ensure_eq!(*f, [want; 2], "frame {}", k);
                }
            }
        }
        rig.settle();
        {
            let mut s = st();
            s.fail_init = 0;
            s.fail_start = 0;
            s.fail_stop = 0;
        }
        // The audio backend does what was asked, on the device asked for.
        for t in [IN, OUT] {
            let s = st();
            let live = s.live(t == OUT);
            let got: Vec<_> = live
                .iter()
                .map(|l| (if t == OUT { l.output } else { l.input }, l.latency, l.started))
                .collect();
            let want: Vec<_> = side[t]
                .stream
                .iter()
                .map(|l| {
                    // rate, channels, 16 bit native endian, voice
                    (Some((l.dev, 48_000, t as u32, 0, 4)), l.latency, l.started)
                })
                .collect();
            ensure_eq!(
                got.iter().map(|(p, l, s)| (p.map(|p| (p.0, p.1, p.2, p.4)), *l, *s)).collect::<Vec<_>>(),
                want.iter().map(|(p, l, s)| (p.map(|p: (usize, u32, u32, i32, u32)| (p.0, p.1, p.2, p.4)), *l, *s)).collect::<Vec<_>>(),
                "{} after step {} {:?}", ["", "microphone", "speaker"][t], step, op
            );
            for (p, _, _) in &got {
                let fmt = p.unwrap().3;
                ensure!(fmt == 0 || fmt == 1, "sample format {fmt}");
            }
        }
        // Everyone is told the same about the devices.
        ensure_eq!(rig.heard(), told, "device changes heard after step {} {:?}", step, op);
        for t in [IN, OUT] {
            let list = listing(&side[t].devs);
            let shown = if t == OUT {
                rig.pcf.get_audio_playout_devices()
            } else {
                rig.pcf.get_audio_recording_devices()
            };
            match list.iter().cloned().collect::<Option<Vec<_>>>() {
                None => ensure!(shown.is_err(), "a list with a hole is shown"),
                Some(l) => match shown {
                    Ok(s) => ensure_eq!(s, l),
                    Err(e) => fail!("no devices: {e}"),
                },
            }
            ensure_eq!(rig.engine.count(t), list.len() as i16);
            for n in 0..=list.len() {
                let (r, name, id) = rig.engine.name(t, n as u16);
                match list.get(n).cloned().flatten() {
                    Some(d) => {
                        ensure_eq!(r, 0, "name of device {} {:?}", n, d);
                        for (got, want) in [(name, d.name), (id, d.unique_id)] {
                            let c = cut(&want);
                            ensure_eq!(got[..c.len()], c[..], "{want}");
                            ensure!(got[c.len()..].iter().all(|b| *b == 0xEE), "written past the end");
                        }
                    }
                    None => {
                        ensure_eq!(r, -1);
                        ensure!(name.iter().chain(&id).all(|b| *b == 0xEE));
                    }
                }
            }
            let e = &rig.engine;
            let (init, run) = if t == OUT { (10, 16) } else { (13, 19) };
            ensure_eq!(e.flag(init), attempted[t][0]);
            ensure_eq!(e.flag(run), attempted[t][1]);
            let (r, a) = e.available(t);
            ensure_eq!(r, 0);
            if let Some(p) = picked[t] {
                ensure_eq!(a, p, "device available");
            }
        }
    }
    drop(rig);
    let s = st();
    ensure_eq!(s.errors, Vec::<String>::new());
    ensure_eq!(s.contexts, 0, "audio contexts left");
    ensure_eq!(s.outstanding_collections, 0);
    ensure!(s.streams.iter().all(|x| x.destroyed), "a stream outlives the call");
    ensure!(s.changed.iter().all(|x| x.is_none()), "still listening for device changes");
    drop(s);
    world.audit(true).map_err(|e| e.into())
}

// ---------------------------------------------------------------- fixed answers, start-up failures

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fixed {
    null: bool,
    no_module: u8,
    nul_in_trials: bool,
    volume: u32,
    on: bool,
}
fn check_fixed(i: &Fixed, o: &mut Obs) -> Res {
    let world = new_global_world();
    cb::reset();
    {
        let mut s = st();
        match i.no_module {
            1 => s.init_fails = true,
            2 => s.register_fails[IN] = true,
            3 => s.register_fails[OUT] = true,
            _ => {}
        }
    }
    if i.nul_in_trials {
        let r = PeerConnectionFactory::new(&Default::default(), false, "a\0b", None);
        ensure!(r.is_err());
        drop(r);
        let s = st();
        ensure_eq!(s.contexts, 0, "an audio context is left behind");
        ensure!(s.changed.iter().all(|x| x.is_none()));
        return Ok(());
    }
    let mut pcf = match PeerConnectionFactory::new(&Default::default(), false, "", None) {
        Ok(p) => p,
        Err(e) => fail!("no factory: {e}"),
    };
    let (adm, table) = *fake::ADM.lock().unwrap();
    let absent = (1..4).contains(&i.no_module);
    ensure_eq!(adm == 0, absent);
    o.nontrivial_if(absent || i.null);
    ensure_eq!(pcf.audio_backend().is_some(), !absent);
    ensure_eq!(pcf.get_audio_playout_devices().is_ok(), !absent);
    ensure_eq!(pcf.get_audio_recording_devices().is_ok(), !absent);
    if absent {
        ensure!(pcf.set_audio_playout_device(0).is_err());
        ensure!(pcf.set_audio_recording_device(0).is_err());
        ensure!(pcf.set_audio_playout_device_by_id("x").is_err());
        ensure!(pcf.set_audio_recording_device_by_id("x").is_err());
        ensure!(pcf.set_audio_warmup(i.on).is_err());
        ensure!(pcf.set_input_voice_processing_enabled(i.on).is_err());
    }
    // An engine without the module, or that is mistaken about it, gets errors, not crashes.
    let e = Engine { adm, table };
    let live = !absent;
    for (n, want) in [(1, 0), (2, 0), (20, 0), (22, 0)] {
        ensure_eq!(e.act(n), if live { want } else { -1 }, "function {}", n);
    }
    for n in [3, 21, 23] {
        ensure_eq!(e.flag(n), live, "function {}", n);
    }
    for n in [10, 13, 16, 19] {
        ensure!(!e.flag(n), "function {n}");
    }
    for n in [24usize, 29, 34, 37, 40, 43, 8, 11] {
        let mut b = true;
        let p: *mut bool = if i.null { std::ptr::null_mut() } else { &mut b };
        let r = call!(e, n, (p => *mut bool) -> i32);
        let good = live && !i.null;
        ensure_eq!(r, if good { 0 } else { -1 }, "function {}", n);
        ensure_eq!(b, !good, "function {}", n);
    }
    for n in [25usize, 30] {
        ensure_eq!(call!(e, n, (i.volume => u32) -> i32), -1, "function {}", n);
    }
    for n in [35usize, 38, 41, 44] {
        ensure_eq!(call!(e, n, (i.on => bool) -> i32), -1, "function {}", n);
    }
    for n in [0usize, 26, 27, 28, 31, 32, 33, 36, 39, 42, 45] {
        let mut v = 0x0101_0101u32;
        ensure_eq!(call!(e, n, (&mut v => *mut u32) -> i32), -1, "function {}", n);
        ensure_eq!(v, 0x0101_0101);
    }
    ensure_eq!(call!(e, 46, (std::ptr::null_mut() => *mut u16) -> i32), -1);
    if absent {
        for n in [9, 12, 14, 15, 17, 18] {
            ensure_eq!(e.act(n), -1, "function {}", n);
        }
        ensure_eq!((e.count(IN), e.count(OUT)), (-1, -1));
        ensure_eq!((e.name(IN, 0).0, e.name(OUT, 0).0), (-1, -1));
    }
    drop(pcf);
    // A worker that could not start lets go of its context on its own time.
    let begin = Instant::now();
    while st().contexts != 0 && begin.elapsed() < Duration::from_secs(5) {
        std::thread::sleep(Duration::from_micros(200));
    }
    let s = st();
    ensure_eq!(s.contexts, 0, "audio contexts left");
    if !absent {
        ensure_eq!(s.errors, Vec::<String>::new());
    }
    drop(s);
    world.audit(true).map_err(|e| e.into())
}
fn fixed() -> impl Strategy<Value = Fixed> {
    (any::<bool>(), 0u8..7, prop::bool::weighted(0.1), any::<u32>(), any::<bool>()).prop_map(
        |(null, no_module, nul_in_trials, volume, on)| Fixed { null, no_module, nul_in_trials, volume, on },
    )
}

pub fn n05(r: &mut Runner) {
    r.facet(
        "devices and streams",
        "at least one device is selected",
        seq(2_500),
        session,
        check_session,
    );
    r.facet(
        "audio without a backend",
        "there is no audio backend, or a null pointer is passed",
        seq(600),
        fixed,
        check_fixed,
    );
}
pub fn n06(r: &mut Runner) {
    r.facet(
        "capture and playout",
        "one callback spans several of the engine's 10 ms chunks",
        seq(2_500),
        audio_session,
        check_session,
    );
}

// ---------------------------------------------------------------- N09

static LINES: Mutex<Vec<(log::Level, String)>> = Mutex::new(vec![]);
struct Capture;
impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("ringrtc") {
            LINES.lock().unwrap().push((r.level(), r.args().to_string()));
        }
    }
    fn flush(&self) {}
}
fn capture<R>(f: impl FnOnce() -> R) -> (R, Vec<(log::Level, String)>) {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| log::set_logger(&Capture).unwrap());
    LINES.lock().unwrap().clear();
    log::set_max_level(log::LevelFilter::Trace);
    let r = f();
    log::set_max_level(log::LevelFilter::Off);
    (r, std::mem::take(&mut *LINES.lock().unwrap()))
}

/// No more of a name than this may show.
fn redacted(s: &str) -> String {
    let keep = if s.is_ascii() { 4 } else { 1 };
    let mut out: String = s.chars().take(keep).collect();
    if out.len() < s.len() {
        out.push_str("...");
    }
    out
}
fn leaks(line: &str, secret: &str) -> bool {
    // Short runs of common letters may well be the shown beginning of another name.
    let c: Vec<char> = secret.chars().collect();
    let shows = |w: &[char]| w[0] != ' ' && w[w.len() - 1] != ' ' && line.contains(&w.iter().collect::<String>());
    c.windows(5).any(shows)
        || c.windows(2).any(|w| w.iter().any(|c| !c.is_ascii()) && shows(w))
}
/// Names in letters the texts around them do not use.
fn secret() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[QXZJKW]{1,6}( [QXZJKW]{1,5}){0,2}",
        1 => "[QXZ你好ß]{1,8}",
        1 => Just(String::new()),
    ]
}
/// Several names of one thing, which often contain one another.
fn names() -> impl Strategy<Value = Vec<String>> {
    (vec(secret(), 4), any::<[u8; 4]>(), vec((0usize..12, 0usize..12), 4)).prop_map(|(mut v, how, cuts)| {
        for k in 1..4 {
            let prev = v[k - 1].clone();
            match how[k] % 5 {
                0 => v[k] = format!("{prev} {}", v[k]),
                1 => v[k] = format!("{}{prev}", v[k]),
                2 => v[k] = prev,
                3 => {
                    let c: Vec<char> = prev.chars().collect();
                    let a = cuts[k].0.min(c.len());
                    v[k] = c[a..(a + cuts[k].1).min(c.len())].iter().collect();
                }
                _ => {}
            }
        }
        v
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Line {
    kind: u8,
    file: String,
    num: u32,
    lead: String,
    names: Vec<String>,
}
fn line() -> impl Strategy<Value = Line> {
    (0u8..10, "[a-z_]{1,8}\\.(c|cpp|rs)", 0u32..5000, "[a-z ]{0,8}", names())
        .prop_map(|(kind, file, num, lead, names)| Line { kind, file, num, lead, names })
}
impl Line {
    fn body(&self, f: impl Fn(&str) -> String) -> String {
        let n: Vec<String> = self.names.iter().map(|s| f(s)).collect();
        match self.kind {
            0 => format!("Found matching device for {}: {}", n[0], n[1]),
            1 => format!("collection: Audio device default changed, id = {}.", n[0]),
            2 => format!("collection: Audio device state changed, id = {}, state = 1.", n[0]),
            3 => format!("endpoint: Audio device default changed flow=0 role=2 new_device_id={}.", n[0]),
            4 => format!("Device 17 ({}) has 2 output-channels", n[0]),
            5 => format!(
                "device uid=\"{}\", model_uid=\"{}\", transport_type=7, source=None, source_name=\"{}\", name=\"{}\", manufacturer=\"m\"",
                n[0], n[1], n[2], n[3]
            ),
            6 => "stream created, 480 frames".into(),
            7 => format!("DeviceID: \"{}\" Name: \"{}\"", n[0], n[1]),
            8 => "no place named".into(),
            _ => String::new(),
        }
    }
}
fn check_line(i: &Line, o: &mut Obs) -> Res {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        // Any audio device module has the backend log to it from then on.
        new_global_world();
        cb::reset();
        drop(AudioDeviceModule::new());
    });
    let say = |f: &dyn Fn(&str) -> String| match i.kind {
        8 => format!("{} {}", i.lead, i.body(f)),
        _ => format!("{}:{}: {}{}", i.file, i.num, i.lead, i.body(f)),
    };
    let text = say(&|s| s.to_string());
    let (r, lines) = capture(|| cb::log_line(&CString::new(text.clone()).unwrap()));
    ensure!(r, "the backend's log goes nowhere");
    let got: Vec<String> = lines.into_iter().map(|l| l.1).collect();
    if i.kind == 7 || i.kind == 8 {
        ensure!(got.is_empty(), "logged: {got:?}");
        return Ok(());
    }
    ensure_eq!(got.len(), 1, "{got:?}");
    let used = [2, 1, 1, 1, 1, 4].get(i.kind as usize).copied().unwrap_or(0);
    o.nontrivial_if(used > 1);
    for n in &i.names[..used] {
        ensure!(!leaks(&got[0], n), "{n:?} shows in {:?}", got[0]);
    }
    // The rest of the line is there.
    ensure!(got[0].starts_with(&format!("cubeb: {}:{}: ", i.file, i.num)), "{}", got[0]);
    if used == 0 {
        ensure_eq!(got[0], format!("cubeb: {text}"));
    }
    for n in &i.names[..used] {
        ensure!(got[0].contains(&redacted(n)), "{:?} lacks the beginning of {n:?}", got[0]);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shown {
    devs: Vec<(String, Option<String>, u32, u32)>,
    more: Vec<(String, Option<String>, u32, u32)>,
    unknown: String,
    fail: u8,
}
fn shown() -> impl Strategy<Value = Shown> {
    let d = || vec((secret(), option::weighted(0.9, secret()), select(vec![0u32, 2]), select(vec![2u32, 2, 0])), 0..4);
    (d(), d(), secret(), 0u8..8).prop_map(|(devs, more, unknown, fail)| Shown { devs, more, unknown, fail })
}
fn check_shown(i: &Shown, o: &mut Obs) -> Res {
    let _w = new_global_world();
    cb::reset();
    let list = |v: &Vec<(String, Option<String>, u32, u32)>, t: usize| -> Vec<Dev> {
        v.iter()
            .enumerate()
            .map(|(k, (f, d, pref, state))| Dev {
                id: t * 0x100 + k,
                device_id: d.clone(),
                friendly: Some(f.clone()),
                typ: t as u32,
                pref: *pref,
                state: *state,
            })
            .collect()
    };
    {
        let mut s = st();
        s.devices[IN] = list(&i.devs, IN);
        s.devices[OUT] = list(&i.more, OUT);
    }
    let (r, lines) = capture(|| -> Res {
        let mut rig = Rig::new(true)?;
        for t in [IN, OUT] {
            for n in 0..5 {
                let _ = rig.engine.name(t, n);
            }
        }
        let e = &rig.engine;
        for n in [INIT_PLAYOUT, INIT_RECORDING, START_PLAYOUT, START_RECORDING] {
            e.act(n);
        }
        {
            let mut s = st();
            s.fail_init = (i.fail & 1) as u32;
            s.fail_start = (i.fail >> 1 & 1) as u32;
            s.fail_stop = (i.fail >> 2 & 1) as u32;
        }
        for (_, d, ..) in i.devs.iter().chain(&i.more) {
            if let Some(d) = d {
                let _ = rig.pcf.set_audio_playout_device_by_id(d);
                let _ = rig.pcf.set_audio_recording_device_by_id(d);
            }
        }
        let _ = rig.pcf.set_audio_playout_device_by_id(&i.unknown);
        let _ = rig.pcf.set_audio_recording_device_by_id(&i.unknown);
        let _ = rig.pcf.set_audio_playout_device(9);
        let _ = rig.pcf.get_audio_playout_devices();
        let _ = rig.pcf.get_audio_recording_devices();
        rig.settle();
        {
            let mut s = st();
            s.devices[IN] = list(&i.more, IN);
            s.devices[OUT] = list(&i.devs, OUT);
        }
        cb::notify(IN);
        cb::notify(OUT);
        rig.settle();
        drop(rig);
        Ok(())
    });
    r?;
    o.nontrivial_if(lines.len() > 3);
    let mut secrets: Vec<&String> = vec![&i.unknown];
    for (f, d, ..) in i.devs.iter().chain(&i.more) {
        secrets.push(f);
        secrets.extend(d);
    }
    for (_, l) in &lines {
        for s in &secrets {
            ensure!(!leaks(l, s), "{s:?} shows in {l:?}");
        }
    }
    Ok(())
}

pub fn n09(r: &mut Runner) {
    r.facet(
        "lines of the audio backend",
        "the line names several devices or names of one",
        seq(20_000),
        line,
        check_line,
    );
    r.facet("devices in the log", "more than three lines are logged", seq(1_500), shown, check_shown);
}
