//! A stand-in for the C++ media engine behind ringrtc's FFI. Every `Rust_*` function is here, with
//! the struct layouts written out again (so a change of layout on ringrtc's side shows), and every
//! object that crosses the border is tracked: reference counts, single deletion, use after release.
#![allow(non_snake_case, clippy::missing_safety_doc)]

use std::{
    cell::RefCell,
    collections::HashMap,
    ffi::{CStr, c_char, c_void},
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    sync::{
        Arc, LazyLock, Mutex,
        atomic::{AtomicI64, AtomicU64, Ordering},
    },
};

pub type P = *const c_void;

// ---------------------------------------------------------------- layouts

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ip {
    pub v6: bool,
    pub address: [u8; 16],
}
impl Ip {
    pub fn of(ip: IpAddr) -> Ip {
        let mut address = [0u8; 16];
        match ip {
            IpAddr::V4(a) => {
                address[..4].copy_from_slice(&a.octets());
                // The rest is unspecified for v4.
                address[4..].fill(0xEE);
                Ip { v6: false, address }
            }
            IpAddr::V6(a) => Ip { v6: true, address: a.octets() },
        }
    }
    pub fn get(&self) -> IpAddr {
        if self.v6 {
            IpAddr::V6(Ipv6Addr::from(self.address))
        } else {
            let a = self.address;
            IpAddr::V4(Ipv4Addr::new(a[0], a[1], a[2], a[3]))
        }
    }
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct IpPort {
    pub ip: Ip,
    pub port: u16,
}
impl IpPort {
    pub fn of(a: SocketAddr) -> IpPort {
        IpPort { ip: Ip::of(a.ip()), port: a.port() }
    }
    pub fn get(&self) -> SocketAddr {
        SocketAddr::new(self.ip.get(), self.port)
    }
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SrtpKeyC {
    suite: i32,
    key: *const u8,
    key_len: usize,
    salt: *const u8,
    salt_len: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct V4C {
    ufrag: *const c_char,
    pwd: *const c_char,
    bidir: *const i32,
    bidir_len: usize,
    enc: *const i32,
    enc_len: usize,
    dec: *const i32,
    dec_len: usize,
}
#[repr(C)]
struct IceServerC {
    username: *const c_char,
    password: *const c_char,
    hostname: *const c_char,
    urls: *const *const c_char,
    urls_len: usize,
}
#[repr(C)]
struct IceServersC {
    servers: *const IceServerC,
    len: usize,
}
#[repr(C)]
struct AudioConfigC {
    hpf: bool,
    aec: bool,
    ns: bool,
    agc: bool,
    adm: P,
    callbacks: P,
    free_adm: unsafe extern "C" fn(P),
}
#[repr(C)]
struct JitterC {
    max_packets: i32,
    min_delay_ms: i32,
    max_target_delay_ms: i32,
    fast_accelerate: bool,
}
#[repr(C)]
struct EncoderC {
    initial_packet_size_ms: i32,
    min_packet_size_ms: i32,
    max_packet_size_ms: i32,
    initial_bitrate_bps: i32,
    min_bitrate_bps: i32,
    max_bitrate_bps: i32,
    bandwidth: i32,
    complexity: i32,
    adaptation: i32,
    enable_cbr: bool,
    enable_dtx: bool,
    enable_fec: bool,
    dred_duration: i32,
    min_packet_loss_percent: i32,
    dnn: *const u8,
    dnn_len: i32,
}
#[repr(C)]
struct DecoderC {
    dnn: *const u8,
    dnn_len: i32,
    complexity: i32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct LevelC {
    pub demux_id: u32,
    pub level: u16,
}
#[repr(C)]
pub struct CandidateC {
    pub sdp: *const c_char,
    pub is_relayed: bool,
    pub relay_protocol: i32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RouteC {
    pub local_adapter_type: i32,
    pub local_adapter_type_under_vpn: i32,
    pub local_relayed: bool,
    pub local_relay_protocol: i32,
    pub remote_relayed: bool,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct FrameMetaC {
    pub width: u32,
    pub height: u32,
    pub rotation: i32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CsdCbs {
    on_success: extern "C" fn(P, P),
    on_failure: extern "C" fn(P, *const c_char, i32),
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SsdCbs {
    on_success: extern "C" fn(P),
    on_failure: extern "C" fn(P, *const c_char, i32),
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct PcObsCbs {
    pub on_ice_candidate: extern "C" fn(P, *const CandidateC),
    pub on_ice_candidate_removed: extern "C" fn(P, IpPort),
    pub on_ice_connection_change: extern "C" fn(P, i32),
    pub on_ice_network_route_change: extern "C" fn(P, RouteC, *const c_char, *const c_char),
    pub on_add_stream: extern "C" fn(P, P),
    pub on_add_audio: extern "C" fn(P, P),
    pub on_add_video: extern "C" fn(P, P, u32),
    pub on_video_frame: extern "C" fn(P, u32, FrameMetaC, P),
    pub ciphertext_size: extern "C" fn(P, bool, usize) -> usize,
    pub encrypt: extern "C" fn(P, *const u8, usize, *mut u8, usize, *mut usize) -> bool,
    pub plaintext_size: extern "C" fn(P, u32, bool, usize) -> usize,
    pub decrypt: extern "C" fn(P, u32, *const u8, usize, *mut u8, usize, *mut usize) -> bool,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RtpCbs {
    pub on_rtp: extern "C" fn(P, u8, u16, u32, u32, *const u8, usize),
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct StatsCbs {
    pub on_complete: extern "C" fn(P, P, *const c_char),
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct UdpSenderC {
    pub object: P,
    pub send_udp: extern "C" fn(P, IpPort, IpPort, *const u8, usize),
    pub delete: extern "C" fn(P),
}

// ---------------------------------------------------------------- objects

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Factory,
    Pc,
    AudioTrack,
    VideoSource,
    VideoTrack,
    Stream,
    Buffer,
    Gatherer,
    Csd,
    Ssd,
    Stats,
    // deleted, not counted
    Desc,
    PcObserver,
    RtpObserver,
    V4,
}

/// What a description was made from.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DescData {
    /// by create_offer / create_answer
    Created { offer: bool, n: u64 },
    V4 { offer: bool, v4: V4, tcc: bool, vp9: (bool, bool), local: Option<bool>, legacy: bool },
    Group {
        local: bool,
        ufrag: String,
        pwd: String,
        suite: i32,
        key: Vec<u8>,
        salt: Vec<u8>,
        local_demux: u32,
        demux_ids: Vec<u32>,
    },
    /// handed to ringrtc by a test
    Raw(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct V4 {
    pub ufrag: String,
    pub pwd: String,
    pub bidir: Vec<i32>,
    pub enc: Vec<i32>,
    pub dec: Vec<i32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct IceServerRec {
    pub username: String,
    pub password: String,
    pub hostname: String,
    pub urls: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct EncoderRec {
    pub ints: Vec<i32>,
    pub flags: (bool, bool, bool),
    pub dnn: Option<Vec<u8>>,
}

/// One call on a peer connection, as the media engine saw it.
#[derive(Clone, Debug, PartialEq)]
pub enum PcCall {
    UpdateTransceivers(Vec<u32>),
    CreateOffer,
    CreateAnswer,
    SendOnlyTransceiver,
    SetLocal(DescRec),
    SetRemote(DescRec),
    OutgoingMedia(bool),
    IncomingMedia(bool),
    Playout(bool),
    Recording(bool),
    AddCandidate(String),
    AddServer { ip: IpAddr, port: u16, tcp: bool, hostname: Option<String> },
    RemoveCandidates(Vec<SocketAddr>),
    CreateGatherer,
    UseGatherer(usize),
    GetStats,
    SendBitrates(i32, i32, i32),
    SendRtp { pt: u8, seq: u16, ts: u32, ssrc: u32, payload: Vec<u8> },
    ReceiveRtp(u8, bool),
    Encoders(EncoderRec),
    Decoders { dnn: Option<Vec<u8>>, complexity: i32 },
    AudioLevels,
    Bandwidth,
    RtpObserver(bool),
    Close,
    Regather,
}
#[derive(Clone, Debug, PartialEq)]
pub struct DescRec {
    pub id: usize,
    pub data: DescData,
    pub srtp: Option<(i32, Vec<u8>, Vec<u8>)>,
}

pub enum Data {
    Factory { owned: Vec<usize>, adm: Option<(usize, unsafe extern "C" fn(P))>, net: usize },
    Pc(PcState),
    Desc { data: DescData, srtp: Option<(i32, Vec<u8>, Vec<u8>)> },
    Csd { observer: usize, cbs: CsdCbs },
    Ssd { observer: usize, cbs: SsdCbs },
    Stats { observer: usize, cbs: StatsCbs, raw: Vec<bool> },
    PcObserver { observer: usize, cbs: PcObsCbs, flags: (bool, bool, bool) },
    RtpObserver { observer: usize, cbs: RtpCbs },
    Track { enabled: Vec<bool>, hints: Vec<bool>, owned: Vec<usize> },
    Source { frames: Vec<usize>, formats: Vec<(u16, u16, u8)> },
    Buffer(BufferRec),
    Plain,
}
#[derive(Clone, Debug, PartialEq)]
pub struct BufferRec {
    pub origin: String,
    pub width: u32,
    pub height: u32,
    pub bytes: Vec<u8>,
}

pub struct PcState {
    pub observer: usize,
    pub kind: u8,
    pub jitter: (i32, i32, i32, bool),
    pub rtcp_ms: i32,
    pub ice: Vec<IceServerRec>,
    pub audio: usize,
    pub video: usize,
    pub calls: Vec<PcCall>,
    pub owned: Vec<usize>,
    pub rtp_observer: usize,
    pub closed: bool,
    pub levels: (u16, Vec<LevelC>),
    pub bandwidth: u32,
}

const MAGIC: u64 = 0x5EED_C0DE_FA4E_0B1E;

#[repr(C)]
pub struct Obj {
    // A V4 object is read by ringrtc at offset 0.
    v4: V4C,
    magic: u64,
    pub kind: Kind,
    pub serial: u64,
    pub refs: AtomicI64,
    world: Arc<World>,
    data: Mutex<Option<Data>>,
    _keep: Vec<Vec<u8>>,
}

/// What happens in one test case.
#[derive(Default)]
pub struct World {
    /// broken ownership rules, misuse of the interface
    pub errors: Mutex<Vec<String>>,
    /// (kind, address) of everything ever created
    pub objects: Mutex<Vec<(Kind, usize)>>,
    /// functions that are to fail (by name); counted down
    pub fail: Mutex<HashMap<&'static str, i64>>,
    pub log: Mutex<Vec<String>>,
    pub factories: Mutex<Vec<(bool, (bool, bool, bool, bool), String)>>,
    pub v4_answer: Mutex<Option<V4>>,
    /// arguments of description → V4 conversions: (description, legacy, encode, decode)
    pub v4_requests: Mutex<Vec<(usize, bool, bool, bool)>>,
    pub sdp_answer: Mutex<Option<Vec<u8>>>,
    /// arguments of the conversions in media
    pub net: Mutex<NetState>,
}
#[derive(Default)]
pub struct NetState {
    pub sender: Option<UdpSenderC>,
    pub interfaces: Vec<(String, i32, IpAddr, u16)>,
    pub removed: Vec<String>,
    pub received: Vec<(SocketAddr, SocketAddr, Vec<u8>)>,
}
unsafe impl Send for NetState {}

static SERIAL: AtomicU64 = AtomicU64::new(1);
static GLOBAL: LazyLock<Mutex<Arc<World>>> = LazyLock::new(Default::default);
thread_local! {
    static LOCAL: RefCell<Option<Arc<World>>> = const { RefCell::new(None) };
}

/// The world of this thread, or the process-wide one.
pub fn world() -> Arc<World> {
    LOCAL
        .try_with(|l| l.borrow().clone())
        .ok()
        .flatten()
        .unwrap_or_else(|| GLOBAL.lock().unwrap().clone())
}
/// Everything this thread makes from now on belongs to a new world.
pub fn new_local_world() -> Arc<World> {
    let w = Arc::new(World::default());
    LOCAL.with(|l| *l.borrow_mut() = Some(w.clone()));
    w
}
/// Everything any thread makes from now on belongs to a new world.
pub fn new_global_world() -> Arc<World> {
    let w = Arc::new(World::default());
    *GLOBAL.lock().unwrap() = w.clone();
    LOCAL.with(|l| *l.borrow_mut() = None);
    w
}

impl World {
    fn err(&self, s: String) {
        self.errors.lock().unwrap().push(s);
    }
    pub fn set_fail(&self, what: &'static str, after: i64) {
        self.fail.lock().unwrap().insert(what, after);
    }
    fn fails(&self, what: &'static str) -> bool {
        let mut f = self.fail.lock().unwrap();
        if let Some(n) = f.get_mut(what) {
            *n -= 1;
            *n < 0
        } else {
            false
        }
    }
    pub fn all(&self, k: Kind) -> Vec<usize> {
        self.objects.lock().unwrap().iter().filter(|(kk, _)| *kk == k).map(|(_, p)| *p).collect()
    }
    pub fn last(&self, k: Kind) -> Option<usize> {
        self.all(k).last().copied()
    }
    /// Everything has been released exactly once, nothing was misused.
    pub fn audit(&self, all_released: bool) -> Result<(), String> {
        let e = self.errors.lock().unwrap();
        if !e.is_empty() {
            return Err(e.join("; "));
        }
        if all_released {
            let left: Vec<String> = self
                .objects
                .lock()
                .unwrap()
                .iter()
                .filter_map(|(k, p)| {
                    let r = at(*p).refs.load(Ordering::SeqCst);
                    (r != 0).then(|| format!("{k:?} still has {r} owner(s)"))
                })
                .collect();
            if !left.is_empty() {
                return Err(format!("never released: {}", left.join(", ")));
            }
        }
        Ok(())
    }
}

pub fn at(p: usize) -> &'static Obj {
    assert!(p != 0, "null object");
    unsafe { &*(p as *const Obj) }
}

fn make_keep(kind: Kind, data: Data, v4: V4C, keep: Vec<Vec<u8>>, world: Arc<World>) -> usize {
    // The header is never freed, so misuse after release is always detectable.
    let o = Box::leak(Box::new(Obj {
        v4,
        magic: MAGIC,
        kind,
        serial: SERIAL.fetch_add(1, Ordering::SeqCst),
        refs: AtomicI64::new(1),
        world: world.clone(),
        data: Mutex::new(Some(data)),
        _keep: keep,
    }));
    let p = o as *const Obj as usize;
    world.objects.lock().unwrap().push((kind, p));
    p
}
const NOV4: V4C = V4C {
    ufrag: std::ptr::null(),
    pwd: std::ptr::null(),
    bidir: std::ptr::null(),
    bidir_len: 0,
    enc: std::ptr::null(),
    enc_len: 0,
    dec: std::ptr::null(),
    dec_len: 0,
};
pub fn make(kind: Kind, data: Data) -> usize {
    make_keep(kind, data, NOV4, vec![], world())
}

impl Obj {
    pub fn addr(&self) -> usize {
        self as *const Obj as usize
    }
    pub fn alive(&self) -> bool {
        self.refs.load(Ordering::SeqCst) > 0
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Data) -> R) -> Option<R> {
        self.data.lock().unwrap().as_mut().map(f)
    }
    pub fn pc<R>(&self, f: impl FnOnce(&mut PcState) -> R) -> R {
        self.with(|d| match d {
            Data::Pc(p) => f(p),
            _ => panic!("not a peer connection"),
        })
        .expect("peer connection is gone")
    }
    fn inc(&self) {
        if self.refs.fetch_add(1, Ordering::SeqCst) < 1 {
            self.world.err(format!("{:?} retained after its release", self.kind));
        }
    }
    fn dec(&self) {
        let before = self.refs.fetch_sub(1, Ordering::SeqCst);
        if before < 1 {
            self.world.err(format!("{:?} released more often than retained", self.kind));
            return;
        }
        if before == 1 {
            let data = self.data.lock().unwrap().take();
            self.destroy(data);
        }
    }
    fn destroy(&self, data: Option<Data>) {
        let need = |p: usize, what: &str| {
            if p != 0 && !at(p).alive() {
                self.world.err(format!("{:?} destroyed after its {what}", self.kind));
            }
        };
        match data {
            Some(Data::Pc(pc)) => {
                need(pc.observer, "observer");
                if pc.rtp_observer != 0 {
                    need(pc.rtp_observer, "RTP observer");
                }
                for o in &pc.owned {
                    if at(*o).kind == Kind::Factory {
                        need(*o, "factory");
                    } else {
                        at(*o).dec();
                    }
                }
            }
            Some(Data::Track { owned, .. }) => {
                for o in &owned {
                    if at(*o).kind == Kind::Factory {
                        need(*o, "factory");
                    } else {
                        at(*o).dec();
                    }
                }
            }
            Some(Data::Source { frames, .. }) => {
                for o in frames {
                    at(o).dec();
                }
            }
            Some(Data::Factory { adm, .. }) => {
                if let Some((adm, free)) = adm {
                    unsafe { free(adm as P) };
                }
                let s = self.world.net.lock().unwrap().sender.take();
                if let Some(s) = s {
                    (s.delete)(s.object);
                }
            }
            _ => {}
        }
    }
}

/// The factory a track was made by.
pub fn factory_of(track: usize) -> usize {
    at(track)
        .with(|d| match d {
            Data::Track { owned, .. } => {
                owned.iter().copied().find(|o| at(*o).kind == Kind::Factory).unwrap_or(0)
            }
            _ => 0,
        })
        .unwrap_or(0)
}

/// Checks a pointer ringrtc passed.
fn check(p: P, kind: Kind, what: &str) -> Option<&'static Obj> {
    if p.is_null() {
        world().err(format!("{what}: null {kind:?}"));
        return None;
    }
    let o = unsafe { &*(p as *const Obj) };
    if o.magic != MAGIC {
        world().err(format!("{what}: not a {kind:?} of the media engine"));
        return None;
    }
    if o.kind != kind {
        o.world.err(format!("{what}: got a {:?} instead of a {kind:?}", o.kind));
        return None;
    }
    if !o.alive() {
        o.world.err(format!("{what}: {kind:?} used after its release"));
        return None;
    }
    Some(o)
}

fn s(p: *const c_char) -> Option<String> {
    (!p.is_null()).then(|| unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned())
}
fn v<T: Clone>(p: *const T, n: usize) -> Vec<T> {
    if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() }
}

// ---------------------------------------------------------------- reference counts, logging

#[unsafe(no_mangle)]
pub extern "C" fn Rust_incRc(p: P) {
    if p.is_null() {
        return;
    }
    let o = unsafe { &*(p as *const Obj) };
    if o.magic != MAGIC {
        world().err("retained something that is not an object".into());
        return;
    }
    o.inc();
}
#[unsafe(no_mangle)]
pub extern "C" fn Rust_decRc(p: P) {
    if p.is_null() {
        return;
    }
    let o = unsafe { &*(p as *const Obj) };
    if o.magic != MAGIC {
        world().err("released something that is not an object".into());
        return;
    }
    if matches!(o.kind, Kind::Desc | Kind::PcObserver | Kind::RtpObserver | Kind::V4) {
        o.world.err(format!("{:?} is not reference counted", o.kind));
        return;
    }
    o.dec();
}
fn delete(p: P, kind: Kind) {
    if let Some(o) = check(p, kind, "delete") {
        o.dec();
    }
}

#[allow(clippy::type_complexity)]
pub static LOGGER: Mutex<Option<(extern "C" fn(i32, *const c_char), i32)>> = Mutex::new(None);
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setLogger(cbs: *const extern "C" fn(i32, *const c_char), min: i32) {
    *LOGGER.lock().unwrap() = Some((unsafe { *cbs }, min));
}

// ---------------------------------------------------------------- descriptions

#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createSetSessionDescriptionObserver(observer: P, cbs: *const SsdCbs) -> P {
    make(Kind::Ssd, Data::Ssd { observer: observer as usize, cbs: unsafe { *cbs } }) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createCreateSessionDescriptionObserver(
    observer: P,
    cbs: *const CsdCbs,
) -> P {
    make(Kind::Csd, Data::Csd { observer: observer as usize, cbs: unsafe { *cbs } }) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_toSdp(desc: P) -> *mut c_char {
    let Some(o) = check(desc, Kind::Desc, "to_sdp") else { return std::ptr::null_mut() };
    if o.world.fails("to_sdp") {
        return std::ptr::null_mut();
    }
    let text = o
        .world
        .sdp_answer
        .lock()
        .unwrap()
        .clone()
        .unwrap_or_else(|| format!("v=0 desc {}", o.serial).into_bytes());
    unsafe {
        let p = libc::malloc(text.len() + 1) as *mut u8;
        std::ptr::copy_nonoverlapping(text.as_ptr(), p, text.len());
        *p.add(text.len()) = 0;
        p as *mut c_char
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_disableDtlsAndSetSrtpKey(
    desc: P,
    suite: i32,
    key: *const u8,
    key_len: usize,
    salt: *const u8,
    salt_len: usize,
) -> bool {
    let Some(o) = check(desc, Kind::Desc, "set_srtp_key") else { return false };
    if o.world.fails("set_srtp_key") {
        return false;
    }
    o.with(|d| {
        if let Data::Desc { srtp, .. } = d {
            *srtp = Some((suite, v(key, key_len), v(salt, salt_len)));
        }
    });
    true
}

fn v4_to_c(x: &V4, w: Arc<World>) -> P {
    let cstr = |t: &str| {
        let mut b = t.as_bytes().to_vec();
        b.push(0);
        b
    };
    let ints = |t: &[i32]| t.iter().flat_map(|i| i.to_ne_bytes()).collect::<Vec<u8>>();
    // i32 arrays need alignment: leak boxed slices instead of byte vectors
    let _ = ints;
    let leak = |t: &[i32]| -> (*const i32, usize) {
        if t.is_empty() {
            (std::ptr::null(), 0)
        } else {
            let b: &'static [i32] = Box::leak(t.to_vec().into_boxed_slice());
            (b.as_ptr(), b.len())
        }
    };
    let (u, p) = (cstr(&x.ufrag), cstr(&x.pwd));
    let (b, e, d) = (leak(&x.bidir), leak(&x.enc), leak(&x.dec));
    let c = V4C {
        ufrag: u.as_ptr() as *const c_char,
        pwd: p.as_ptr() as *const c_char,
        bidir: b.0,
        bidir_len: b.1,
        enc: e.0,
        enc_len: e.1,
        dec: d.0,
        dec_len: d.1,
    };
    make_keep(Kind::V4, Data::Plain, c, vec![u, p], w) as P
}
fn to_v4(desc: P, legacy: bool, enc: bool, dec: bool) -> P {
    let Some(o) = check(desc, Kind::Desc, "to_v4") else { return std::ptr::null() };
    o.world.v4_requests.lock().unwrap().push((o.addr(), legacy, enc, dec));
    if o.world.fails("to_v4") {
        return std::ptr::null();
    }
    let answer = o.world.v4_answer.lock().unwrap().clone().unwrap_or_else(|| V4 {
        ufrag: format!("uf{}", o.serial),
        pwd: format!("pw{}", o.serial),
        bidir: vec![8],
        enc: if legacy { vec![] } else { vec![9] },
        dec: if legacy { vec![] } else { vec![9] },
    });
    v4_to_c(&answer, o.world.clone())
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_sessionDescriptionToV4Legacy(desc: P, vp9: bool) -> P {
    to_v4(desc, true, vp9, vp9)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_sessionDescriptionToV4(desc: P, enc: bool, dec: bool) -> P {
    to_v4(desc, false, enc, dec)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_deleteV4(p: P) {
    delete(p, Kind::V4)
}
fn read_v4(p: *const V4C) -> V4 {
    let c = unsafe { *p };
    V4 {
        ufrag: s(c.ufrag).unwrap_or_else(|| "<null>".into()),
        pwd: s(c.pwd).unwrap_or_else(|| "<null>".into()),
        bidir: v(c.bidir, c.bidir_len),
        enc: v(c.enc, c.enc_len),
        dec: v(c.dec, c.dec_len),
    }
}
fn desc(data: DescData, what: &'static str) -> P {
    if world().fails(what) {
        return std::ptr::null();
    }
    make(Kind::Desc, Data::Desc { data, srtp: None }) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_sessionDescriptionFromV4Legacy(
    offer: bool,
    v4: *const V4C,
    tcc: bool,
    vp9: bool,
) -> P {
    desc(
        DescData::V4 { offer, v4: read_v4(v4), tcc, vp9: (vp9, vp9), local: None, legacy: true },
        "from_v4",
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_sessionDescriptionFromV4(
    offer: bool,
    v4: *const V4C,
    tcc: bool,
    enc: bool,
    dec: bool,
    local: bool,
) -> P {
    desc(
        DescData::V4 {
            offer,
            v4: read_v4(v4),
            tcc,
            vp9: (enc, dec),
            local: Some(local),
            legacy: false,
        },
        "from_v4",
    )
}
#[allow(clippy::too_many_arguments)]
fn group_desc(
    local: bool,
    ufrag: *const c_char,
    pwd: *const c_char,
    key: SrtpKeyC,
    local_demux: u32,
    ids: *const u32,
    n: usize,
) -> P {
    desc(
        DescData::Group {
            local,
            ufrag: s(ufrag).unwrap_or_else(|| "<null>".into()),
            pwd: s(pwd).unwrap_or_else(|| "<null>".into()),
            suite: key.suite,
            key: v(key.key, key.key_len),
            salt: v(key.salt, key.salt_len),
            local_demux,
            demux_ids: v(ids, n),
        },
        if local { "group_local" } else { "group_remote" },
    )
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_localDescriptionForGroupCall(
    ufrag: *const c_char,
    pwd: *const c_char,
    key: SrtpKeyC,
    local_demux: u32,
    ids: *const u32,
    n: usize,
) -> P {
    group_desc(true, ufrag, pwd, key, local_demux, ids, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_remoteDescriptionForGroupCall(
    ufrag: *const c_char,
    pwd: *const c_char,
    key: SrtpKeyC,
    local_demux: u32,
    ids: *const u32,
    n: usize,
) -> P {
    group_desc(false, ufrag, pwd, key, local_demux, ids, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_deleteSessionDescription(p: P) {
    delete(p, Kind::Desc)
}
/// A peer connection without a factory.
pub fn blank_pc() -> usize {
    make(
        Kind::Pc,
        Data::Pc(PcState {
            observer: 0,
            kind: 0,
            jitter: (0, 0, 0, false),
            rtcp_ms: 0,
            ice: vec![],
            audio: 0,
            video: 0,
            calls: vec![],
            owned: vec![],
            rtp_observer: 0,
            closed: false,
            levels: (0, vec![]),
            bandwidth: 0,
        }),
    )
}
pub fn desc_rec(o: &Obj) -> DescRec {
    o.with(|d| match d {
        Data::Desc { data, srtp } => {
            DescRec { id: o.addr(), data: data.clone(), srtp: srtp.clone() }
        }
        _ => panic!("not a description"),
    })
    .expect("description is gone")
}

// ---------------------------------------------------------------- factory

#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createPeerConnectionFactory(
    cfg: P,
    injectable: bool,
    trials: *const c_char,
) -> P {
    let w = world();
    let c = unsafe { &*(cfg as *const AudioConfigC) };
    w.factories.lock().unwrap().push((
        injectable,
        (c.hpf, c.aec, c.ns, c.agc),
        s(trials).unwrap_or_else(|| "<null>".into()),
    ));
    *ADM.lock().unwrap() = (c.adm as usize, c.callbacks as usize);
    if w.fails("factory") {
        if !c.adm.is_null() {
            unsafe { (c.free_adm)(c.adm) };
        }
        return std::ptr::null();
    }
    let adm = (!c.adm.is_null()).then_some((c.adm as usize, c.free_adm));
    make(Kind::Factory, Data::Factory { owned: vec![], adm, net: usize::from(injectable) }) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createPeerConnectionFactoryWrapper(f: P) -> P {
    make(Kind::Factory, Data::Factory { owned: vec![f as usize], adm: None, net: 0 }) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_getInjectableNetwork(f: P) -> P {
    let Some(o) = check(f, Kind::Factory, "injectable_network") else { return std::ptr::null() };
    let net = o.with(|d| if let Data::Factory { net, .. } = d { *net } else { 0 }).unwrap_or(0);
    if net == 0 { std::ptr::null() } else { f }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createPeerConnection(
    f: P,
    observer: P,
    kind: u8,
    jitter: P,
    rtcp_ms: i32,
    ice: P,
    audio: P,
    video: P,
) -> P {
    let Some(fo) = check(f, Kind::Factory, "create_peer_connection") else {
        return std::ptr::null();
    };
    let w = fo.world.clone();
    check(observer, Kind::PcObserver, "create_peer_connection");
    if w.fails("peer_connection") {
        return std::ptr::null();
    }
    let j = unsafe { &*(jitter as *const JitterC) };
    let i = unsafe { &*(ice as *const IceServersC) };
    let mut servers = vec![];
    for n in 0..i.len {
        let c = unsafe { &*i.servers.add(n) };
        servers.push(IceServerRec {
            username: s(c.username).unwrap_or_else(|| "<null>".into()),
            password: s(c.password).unwrap_or_else(|| "<null>".into()),
            hostname: s(c.hostname).unwrap_or_else(|| "<null>".into()),
            urls: (0..c.urls_len)
                .map(|k| s(unsafe { *c.urls.add(k) }).unwrap_or_else(|| "<null>".into()))
                .collect(),
        });
    }
    let mut owned = vec![f as usize];
    for (t, k) in [(audio, Kind::AudioTrack), (video, Kind::VideoTrack)] {
        if !t.is_null()
            && let Some(o) = check(t, k, "create_peer_connection")
        {
            o.inc();
            owned.push(t as usize);
        }
    }
    let st = PcState {
        observer: observer as usize,
        kind,
        jitter: (j.max_packets, j.min_delay_ms, j.max_target_delay_ms, j.fast_accelerate),
        rtcp_ms,
        ice: servers,
        audio: audio as usize,
        video: video as usize,
        calls: vec![],
        owned,
        rtp_observer: 0,
        closed: false,
        levels: (0, vec![]),
        bandwidth: 0,
    };
    make_keep(Kind::Pc, Data::Pc(st), NOV4, vec![], w) as P
}
fn child(f: P, kind: Kind, what: &'static str, source: Option<P>) -> P {
    let Some(fo) = check(f, Kind::Factory, what) else { return std::ptr::null() };
    if fo.world.fails(what) {
        return std::ptr::null();
    }
    let mut owned = vec![f as usize];
    if let Some(sp) = source
        && let Some(o) = check(sp, Kind::VideoSource, what)
    {
        o.inc();
        owned.push(sp as usize);
    }
    make_keep(
        kind,
        Data::Track { enabled: vec![], hints: vec![], owned },
        NOV4,
        vec![],
        fo.world.clone(),
    ) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createAudioTrack(f: P) -> P {
    child(f, Kind::AudioTrack, "audio_track", None)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createVideoSource() -> P {
    if world().fails("video_source") {
        return std::ptr::null();
    }
    make(Kind::VideoSource, Data::Source { frames: vec![], formats: vec![] }) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createVideoTrack(f: P, source: P) -> P {
    child(f, Kind::VideoTrack, "video_track", Some(source))
}

// ---------------------------------------------------------------- peer connection

fn rec(pc: P, c: PcCall, what: &str) -> Option<&'static Obj> {
    let o = check(pc, Kind::Pc, what)?;
    o.pc(|p| {
        if p.closed && !matches!(c, PcCall::Close) {
            // WebRTC tolerates this, so it is only recorded.
            o.world.log.lock().unwrap().push(format!("{what} after close"));
        }
        if matches!(c, PcCall::Close) {
            p.closed = true;
        }
        p.calls.push(c);
    });
    Some(o)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_updateTransceivers(pc: P, ids: *const u32, n: usize) -> bool {
    rec(pc, PcCall::UpdateTransceivers(v(ids, n)), "update_transceivers")
        .is_some_and(|o| !o.world.fails("update_transceivers"))
}
fn create_desc(pc: P, csd: P, offer: bool) {
    let call = if offer { PcCall::CreateOffer } else { PcCall::CreateAnswer };
    let what = if offer { "create_offer" } else { "create_answer" };
    let Some(o) = rec(pc, call, what) else { return };
    let Some(c) = check(csd, Kind::Csd, what) else { return };
    let (observer, cbs) = c
        .with(|d| match d {
            Data::Csd { observer, cbs } => (*observer, *cbs),
            _ => unreachable!(),
        })
        .unwrap();
    if o.world.fails(what) {
        (cbs.on_failure)(observer as P, c"no can do".as_ptr(), 7);
    } else {
        let n = SERIAL.fetch_add(1, Ordering::SeqCst);
        let d = make_keep(
            Kind::Desc,
            Data::Desc { data: DescData::Created { offer, n }, srtp: None },
            NOV4,
            vec![],
            o.world.clone(),
        );
        (cbs.on_success)(observer as P, d as P);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createOffer(pc: P, csd: P) {
    create_desc(pc, csd, true)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createAnswer(pc: P, csd: P) {
    create_desc(pc, csd, false)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createSendOnlyTransceiver(pc: P) -> bool {
    rec(pc, PcCall::SendOnlyTransceiver, "send_only").is_some_and(|o| !o.world.fails("send_only"))
}
fn set_desc(pc: P, ssd: P, d: P, local: bool) {
    let what = if local { "set_local" } else { "set_remote" };
    let Some(dd) = check(d, Kind::Desc, what) else { return };
    let r = desc_rec(dd);
    let Some(o) = rec(pc, if local { PcCall::SetLocal(r) } else { PcCall::SetRemote(r) }, what)
    else {
        return;
    };
    // The description is the engine's now.
    dd.dec();
    let Some(c) = check(ssd, Kind::Ssd, what) else { return };
    let (observer, cbs) = c
        .with(|d| match d {
            Data::Ssd { observer, cbs } => (*observer, *cbs),
            _ => unreachable!(),
        })
        .unwrap();
    if o.world.fails(what) {
        (cbs.on_failure)(observer as P, c"no can do".as_ptr(), 9);
    } else {
        (cbs.on_success)(observer as P);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setLocalDescription(pc: P, ssd: P, d: P) {
    set_desc(pc, ssd, d, true)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setRemoteDescription(pc: P, ssd: P, d: P) {
    set_desc(pc, ssd, d, false)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setOutgoingMediaEnabled(pc: P, on: bool) {
    rec(pc, PcCall::OutgoingMedia(on), "outgoing_media");
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setIncomingMediaEnabled(pc: P, on: bool) -> bool {
    rec(pc, PcCall::IncomingMedia(on), "incoming_media");
    true
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setAudioPlayoutEnabled(pc: P, on: bool) {
    rec(pc, PcCall::Playout(on), "playout");
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setAudioRecordingEnabled(pc: P, on: bool) {
    rec(pc, PcCall::Recording(on), "recording");
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_addIceCandidateFromSdp(pc: P, sdp: *const c_char) -> bool {
    let t = s(sdp).unwrap_or_else(|| "<null>".into());
    rec(pc, PcCall::AddCandidate(t), "add_candidate")
        .is_some_and(|o| !o.world.fails("add_candidate"))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_addIceCandidateFromServer(
    pc: P,
    ip: Ip,
    port: u16,
    tcp: bool,
    hostname: *const c_char,
) -> bool {
    rec(pc, PcCall::AddServer { ip: ip.get(), port, tcp, hostname: s(hostname) }, "add_server")
        .is_some_and(|o| !o.world.fails("add_server"))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_removeIceCandidates(pc: P, a: *const IpPort, n: usize) -> bool {
    let a = v(a, n).iter().map(|x| x.get()).collect();
    rec(pc, PcCall::RemoveCandidates(a), "remove_candidates").is_some()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createSharedIceGatherer(pc: P) -> P {
    let Some(o) = rec(pc, PcCall::CreateGatherer, "create_gatherer") else {
        return std::ptr::null();
    };
    if o.world.fails("create_gatherer") {
        return std::ptr::null();
    }
    make_keep(Kind::Gatherer, Data::Plain, NOV4, vec![], o.world.clone()) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_useSharedIceGatherer(pc: P, g: P) -> bool {
    check(g, Kind::Gatherer, "use_gatherer");
    let Some(o) = rec(pc, PcCall::UseGatherer(g as usize), "use_gatherer") else { return false };
    if o.world.fails("use_gatherer") {
        return false;
    }
    at(g as usize).inc();
    o.pc(|p| p.owned.push(g as usize));
    true
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_getStats(pc: P, st: P) {
    rec(pc, PcCall::GetStats, "get_stats");
    check(st, Kind::Stats, "get_stats");
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setSendBitrates(pc: P, min: i32, start: i32, max: i32) {
    rec(pc, PcCall::SendBitrates(min, start, max), "send_bitrates");
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_sendRtp(
    pc: P,
    pt: u8,
    seq: u16,
    ts: u32,
    ssrc: u32,
    data: *const u8,
    n: usize,
) -> bool {
    rec(pc, PcCall::SendRtp { pt, seq, ts, ssrc, payload: v(data, n) }, "send_rtp")
        .is_some_and(|o| !o.world.fails("send_rtp"))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_receiveRtp(pc: P, pt: u8, on: bool) -> bool {
    rec(pc, PcCall::ReceiveRtp(pt, on), "receive_rtp")
        .is_some_and(|o| !o.world.fails("receive_rtp"))
}
fn dnn(p: *const u8, n: i32) -> Option<Vec<u8>> {
    (!p.is_null()).then(|| v(p, n as usize))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_configureAudioEncoders(pc: P, c: P) {
    let c = unsafe { &*(c as *const EncoderC) };
    rec(
        pc,
        PcCall::Encoders(EncoderRec {
            ints: vec![
                c.initial_packet_size_ms,
                c.min_packet_size_ms,
                c.max_packet_size_ms,
                c.initial_bitrate_bps,
                c.min_bitrate_bps,
                c.max_bitrate_bps,
                c.bandwidth,
                c.complexity,
                c.adaptation,
                c.dred_duration,
                c.min_packet_loss_percent,
            ],
            flags: (c.enable_cbr, c.enable_dtx, c.enable_fec),
            dnn: dnn(c.dnn, c.dnn_len),
        }),
        "encoders",
    );
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_configureAudioDecoders(pc: P, c: P) {
    let c = unsafe { &*(c as *const DecoderC) };
    rec(
        pc,
        PcCall::Decoders { dnn: dnn(c.dnn, c.dnn_len), complexity: c.complexity },
        "decoders",
    );
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_getAudioLevels(
    pc: P,
    captured: *mut u16,
    received: *mut LevelC,
    cap: usize,
    n: *mut usize,
) {
    let Some(o) = rec(pc, PcCall::AudioLevels, "audio_levels") else { return };
    let (c, l) = o.pc(|p| p.levels.clone());
    unsafe {
        *captured = c;
        *n = l.len().min(cap);
        for (i, x) in l.iter().take(cap).enumerate() {
            *received.add(i) = *x;
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_getLastBandwidthEstimateBps(pc: P) -> u32 {
    rec(pc, PcCall::Bandwidth, "bandwidth").map_or(0, |o| o.pc(|p| p.bandwidth))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setRtpPacketObserver(pc: P, obs: P) {
    let Some(o) = rec(pc, PcCall::RtpObserver(!obs.is_null()), "rtp_observer") else { return };
    if !obs.is_null() {
        check(obs, Kind::RtpObserver, "rtp_observer");
    }
    o.pc(|p| p.rtp_observer = obs as usize);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_closePeerConnection(pc: P) {
    rec(pc, PcCall::Close, "close");
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_regatherOnAllNetworks(pc: P) {
    rec(pc, PcCall::Regather, "regather");
}

// ---------------------------------------------------------------- observers

#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createPeerConnectionObserver(
    observer: P,
    cbs: *const PcObsCbs,
    enc: bool,
    ev: bool,
    content: bool,
) -> P {
    if world().fails("pc_observer") {
        return std::ptr::null();
    }
    make(
        Kind::PcObserver,
        Data::PcObserver {
            observer: observer as usize,
            cbs: unsafe { *cbs },
            flags: (enc, ev, content),
        },
    ) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_deletePeerConnectionObserver(p: P) {
    delete(p, Kind::PcObserver)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createRtpObserver(observer: P, cbs: *const RtpCbs) -> P {
    if world().fails("rtp_observer") {
        return std::ptr::null();
    }
    make(
        Kind::RtpObserver,
        Data::RtpObserver { observer: observer as usize, cbs: unsafe { *cbs } },
    ) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_deleteRtpObserver(p: P) {
    delete(p, Kind::RtpObserver)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_createStatsObserver(observer: P, cbs: *const StatsCbs) -> P {
    make(
        Kind::Stats,
        Data::Stats { observer: observer as usize, cbs: unsafe { *cbs }, raw: vec![] },
    ) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setCollectRawStatsReport(p: P, on: bool) {
    if let Some(o) = check(p, Kind::Stats, "collect_raw") {
        o.with(|d| {
            if let Data::Stats { raw, .. } = d {
                raw.push(on)
            }
        });
    }
}
/// The registered observer of a peer connection observer object.
pub fn pc_observer(p: usize) -> (P, PcObsCbs, (bool, bool, bool)) {
    at(p)
        .with(|d| match d {
            Data::PcObserver { observer, cbs, flags } => (*observer as P, *cbs, *flags),
            _ => panic!("not a peer connection observer"),
        })
        .expect("observer is gone")
}

// ---------------------------------------------------------------- media

fn track(t: P, kind: Kind, f: impl FnOnce(&mut Vec<bool>, &mut Vec<bool>)) {
    if let Some(o) = check(t, kind, "track") {
        o.with(|d| {
            if let Data::Track { enabled, hints, .. } = d {
                f(enabled, hints)
            }
        });
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setAudioTrackEnabled(t: P, on: bool) {
    track(t, Kind::AudioTrack, |e, _| e.push(on));
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setVideoTrackEnabled(t: P, on: bool) {
    track(t, Kind::VideoTrack, |e, _| e.push(on));
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_setVideoTrackContentHint(t: P, on: bool) {
    track(t, Kind::VideoTrack, |_, h| h.push(on));
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_pushVideoFrame(source: P, b: P) {
    let (Some(o), Some(bo)) =
        (check(source, Kind::VideoSource, "push_frame"), check(b, Kind::Buffer, "push_frame"))
    else {
        return;
    };
    bo.inc();
    o.with(|d| {
        if let Data::Source { frames, .. } = d {
            frames.push(b as usize)
        }
    });
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_adaptOutputVideoFormat(source: P, w: u16, h: u16, fps: u8) {
    if let Some(o) = check(source, Kind::VideoSource, "adapt") {
        o.with(|d| {
            if let Data::Source { formats, .. } = d {
                formats.push((w, h, fps))
            }
        });
    }
}
pub fn buffer(origin: &str, width: u32, height: u32, bytes: Vec<u8>) -> usize {
    make(
        Kind::Buffer,
        Data::Buffer(BufferRec { origin: origin.into(), width, height, bytes }),
    )
}
pub fn buffer_rec(p: usize) -> BufferRec {
    at(p)
        .with(|d| match d {
            Data::Buffer(b) => b.clone(),
            _ => panic!("not a buffer"),
        })
        .expect("buffer is gone")
}
fn copy_from(origin: &str, w: u32, h: u32, src: *const u8, n: usize) -> P {
    buffer(origin, w, h, v(src, n)) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_copyVideoFrameBufferFromI420(w: u32, h: u32, src: *const u8) -> P {
    copy_from("i420", w, h, src, (w * h * 3 / 2) as usize)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_copyVideoFrameBufferFromNv12(w: u32, h: u32, src: *const u8) -> P {
    copy_from("nv12", w, h, src, (w * h * 3 / 2) as usize)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_copyVideoFrameBufferFromRgba(w: u32, h: u32, src: *const u8) -> P {
    copy_from("rgba", w, h, src, (w * h * 4) as usize)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_convertVideoFrameBufferToRgba(b: P, out: *mut u8) -> bool {
    let Some(o) = check(b, Kind::Buffer, "to_rgba") else { return false };
    if o.world.fails("to_rgba") {
        return false;
    }
    let r = buffer_rec(b as usize);
    let n = (r.width * r.height * 4) as usize;
    for i in 0..n {
        unsafe { *out.add(i) = r.bytes.get(i % r.bytes.len().max(1)).copied().unwrap_or(0) };
    }
    true
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_getVideoFrameBufferAsI420(b: P) -> *const u8 {
    let Some(o) = check(b, Kind::Buffer, "as_i420") else { return std::ptr::null() };
    if o.world.fails("as_i420") {
        return std::ptr::null();
    }
    o.with(|d| match d {
        Data::Buffer(r) => {
            let n = (r.width * r.height * 3 / 2) as usize;
            if r.bytes.len() < n {
                r.bytes.resize(n, 0);
            }
            r.bytes.as_ptr()
        }
        _ => unreachable!(),
    })
    .unwrap()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_scaleVideoFrameBuffer(b: P, w: isize, h: isize) -> P {
    let Some(_) = check(b, Kind::Buffer, "scale") else { return std::ptr::null() };
    let r = buffer_rec(b as usize);
    buffer(&format!("{}|scale", r.origin), w as u32, h as u32, vec![]) as P
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_copyAndRotateVideoFrameBuffer(b: P, rotation: i32) -> P {
    let Some(o) = check(b, Kind::Buffer, "rotate") else { return std::ptr::null() };
    if o.world.fails("rotate") {
        return std::ptr::null();
    }
    let r = buffer_rec(b as usize);
    let (w, h) = if rotation % 180 == 90 { (r.height, r.width) } else { (r.width, r.height) };
    buffer(&format!("{}|rot{rotation}", r.origin), w, h, r.bytes) as P
}

// ---------------------------------------------------------------- injectable network

#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_InjectableNetwork_SetSender(net: P, sender: *const UdpSenderC) {
    let Some(o) = check(net, Kind::Factory, "set_sender") else { return };
    let old = o.world.net.lock().unwrap().sender.replace(unsafe { *sender });
    if let Some(s) = old {
        (s.delete)(s.object);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_InjectableNetwork_AddInterface(
    net: P,
    name: *const c_char,
    typ: i32,
    ip: Ip,
    preference: u16,
) {
    let Some(o) = check(net, Kind::Factory, "add_interface") else { return };
    o.world.net.lock().unwrap().interfaces.push((s(name).unwrap(), typ, ip.get(), preference));
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_InjectableNetwork_RemoveInterface(net: P, name: *const c_char) {
    let Some(o) = check(net, Kind::Factory, "remove_interface") else { return };
    o.world.net.lock().unwrap().removed.push(s(name).unwrap());
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn Rust_InjectableNetwork_ReceiveUdp(
    net: P,
    source: IpPort,
    dest: IpPort,
    data: *const u8,
    n: usize,
) {
    let Some(o) = check(net, Kind::Factory, "receive_udp") else { return };
    o.world.net.lock().unwrap().received.push((source.get(), dest.get(), v(data, n)));
}

// ---------------------------------------------------------------- audio callbacks

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub samples: Vec<i16>,
    pub n_samples: usize,
    pub bytes_per_sample: usize,
    pub channels: usize,
    pub rate: u32,
    pub fixed: (u32, i32, u32, bool, i64),
}
/// One answer of the engine to "more audio, please".
#[derive(Clone, Debug, PartialEq)]
pub struct Play {
    pub ret: i32,
    /// how many samples to claim (the samples after `data` are left alone)
    pub claim: usize,
    pub data: Vec<i16>,
}
#[derive(Default)]
pub struct AudioState {
    /// What the engine got from the microphone.
    pub recorded: Vec<Rec>,
    /// Answers to the next deliveries (0 when there are none left).
    pub record_rets: std::collections::VecDeque<i32>,
    /// What the engine plays next.
    pub plays: std::collections::VecDeque<Play>,
    /// (samples, bytes per sample, channels, rate)
    pub play_requests: Vec<(usize, usize, usize, u32)>,
}
/// The audio device module handed over last: the object and its table of functions.
pub static ADM: Mutex<(usize, usize)> = Mutex::new((0, 0));
pub static AUDIO: LazyLock<Mutex<AudioState>> = LazyLock::new(Default::default);

#[unsafe(no_mangle)]
#[allow(clippy::too_many_arguments)]
pub unsafe extern "C" fn Rust_recordedDataIsAvailable(
    samples: P,
    n: usize,
    bytes: usize,
    channels: usize,
    rate: u32,
    delay_ms: u32,
    drift: i32,
    level: u32,
    key: bool,
    new_level: *mut u32,
    capture_ns: i64,
) -> i32 {
    let mut a = AUDIO.lock().unwrap();
    let n_i16 = if bytes == 2 { n } else { 0 };
    a.recorded.push(Rec {
        samples: v(samples as *const i16, n_i16),
        n_samples: n,
        bytes_per_sample: bytes,
        channels,
        rate,
        fixed: (delay_ms, drift, level, key, capture_ns),
    });
    unsafe { *new_level = 7 };
    a.record_rets.pop_front().unwrap_or(0)
}
#[unsafe(no_mangle)]
#[allow(clippy::too_many_arguments)]
pub unsafe extern "C" fn Rust_needMorePlayData(
    n: usize,
    bytes: usize,
    channels: usize,
    rate: u32,
    out: *mut c_void,
    n_out: *mut usize,
    elapsed: *mut i64,
    ntp: *mut i64,
) -> i32 {
    let mut a = AUDIO.lock().unwrap();
    a.play_requests.push((n, bytes, channels, rate));
    let p = a.plays.pop_front().unwrap_or(Play { ret: 0, claim: 0, data: vec![] });
    unsafe {
        for (i, s) in p.data.iter().take(n).enumerate() {
            *(out as *mut i16).add(i) = *s;
        }
        *n_out = p.claim;
        *elapsed = -1;
        *ntp = -1;
    }
    p.ret
}
