//! N08 call quality figures: the engine's counters in, what is shown and logged out, against a
//! model written from the meaning of each figure.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    ffi::{CString, c_char},
    sync::{Arc, Mutex, Once},
    time::Duration,
};

use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par};
use proptest::{collection::vec, option, prelude::*};
use ringrtc::{
    common::CallId,
    webrtc::{
        self,
        peer_connection::PeerConnection,
        peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol},
        stats_observer::{
            AudioReceiverStatistics, AudioSenderStatistics, ConnectionStatistics, MediaStatistics,
            StatsObserver, StatsSnapshot, StatsSnapshotConsumer, StatsVideoCodecType,
            VideoReceiverStatistics, VideoSenderStatistics, create_stats_observer,
        },
    },
};
use serde::{Deserialize, Serialize};

use crate::{
    fake::{self, Data, Kind, P, PcCall, at, new_local_world},
    wrap_props::no_audio_backend,
};

// ---------------------------------------------------------------- what comes out

#[derive(Clone, Debug, Default, PartialEq)]
struct Shot {
    kind: &'static str,
    num: BTreeMap<&'static str, f64>,
    text: BTreeMap<&'static str, String>,
}
macro_rules! shot {
    ($kind:expr, $s:expr, [$($f:ident),*]) => {
        Shot { kind: $kind, num: [$((stringify!($f), $s.$f as f64)),*].into(), text: BTreeMap::new() }
    };
}
#[derive(Debug, Clone, Default)]
struct Taker(Arc<Mutex<Vec<Shot>>>);
impl StatsSnapshotConsumer for Taker {
    fn on_stats_snapshot_ready(&self, s: &StatsSnapshot) {
        let shot = match s {
            StatsSnapshot::Begin => Shot { kind: "begin", ..Default::default() },
            StatsSnapshot::End => Shot { kind: "end", ..Default::default() },
            StatsSnapshot::System(s) => shot!("system", s, [cpu_pct]),
            StatsSnapshot::Connection(s) => {
                let mut x = shot!("connection", s, [
                    timestamp_us, current_round_trip_time, available_outgoing_bitrate,
                    requests_sent, responses_received, requests_received, responses_sent
                ]);
                x.text.insert("call_id", s.call_id.to_string());
                x.text.insert("route", format!("{:?}", s.network_route));
                x
            }
            StatsSnapshot::AudioSender(s) => shot!("audio,send", s, [
                ssrc, packets_per_second, average_packet_size, bitrate, remote_packets_lost_pct,
                remote_jitter, remote_rtt, audio_energy
            ]),
            StatsSnapshot::AudioReceiver(s) => shot!("audio,recv", s, [
                ssrc, packets_per_second, packets_lost_pct, bitrate, jitter, jitter_buffer_delay,
                jitter_buffer_target_delay, jitter_buffer_flushes, audio_energy,
                concealed_samples_pct, fec_packets_received, relative_arrival_delay_per_packet
            ]),
            StatsSnapshot::VideoSender(s) => {
                let mut x = shot!("video,send", s, [
                    ssrc, packets_per_second, average_packet_size, bitrate, framerate,
                    key_frames_encoded, encode_time_per_frame, width, height,
                    retransmitted_packets_sent, retransmitted_bitrate, send_delay_per_packet,
                    nack_count, pli_count, quality_limitation_resolution_changes,
                    remote_packets_lost_pct, remote_jitter, remote_round_trip_time
                ]);
                x.text.insert("quality_limitation_reason", s.quality_limitation_reason.to_string());
                x.text.insert("codec", format!("{:?}", s.codec));
                x.text.insert("implementation", format!("{:?}", s.encoder_implementation));
                x
            }
            StatsSnapshot::VideoReceiver(s) => {
                let mut x = shot!("video,recv", s, [
                    ssrc, packets_per_second, packets_lost_pct, bitrate, framerate,
                    key_frames_decoded, decode_time_per_frame, width, height, jitter, freeze_count
                ]);
                x.text.insert("codec", format!("{:?}", s.codec));
                x.text.insert("implementation", format!("{:?}", s.decoder_implementation));
                x
            }
        };
        self.0.lock().unwrap().push(shot);
    }
}

thread_local! {
    static LINES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
struct Capture;
impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().ends_with("stats_observer") {
            LINES.with(|l| l.borrow_mut().push(r.args().to_string()));
        }
    }
    fn flush(&self) {}
}

// ---------------------------------------------------------------- what goes in

/// Counters of a stream: how much each grew, or where it starts over.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grow {
    ssrc: u32,
    /// which counters start over from zero
    reset: u32,
    ints: Vec<u32>,
    lost: i32,
    times: Vec<u32>,
    now: [u32; 3],
    size: (u32, u32),
    codec: u8,
    reason: u8,
    name: Option<Vec<u8>>,
}
fn grow() -> impl Strategy<Value = Grow> {
    let count = || {
        prop_oneof![
            2 => Just(0u32),
            4 => 0u32..400,
            1 => 400u32..2_000_000,
        ]
    };
    (
        (0u32..3, prop_oneof![6 => Just(0u32), 1 => any::<u32>(), 2 => (0u32..12).prop_map(|b| 1 << b)]),
        (vec(count(), 10), prop_oneof![3 => Just(0i32), 3 => 0i32..60, 1 => -60i32..0]),
        vec(count(), 6),
        (any::<[u16; 3]>(), (any::<u16>(), any::<u16>())),
        (0u8..3, 0u8..6, option::of(vec(1u8..=255, 0..12))),
    )
        .prop_map(|((ssrc, reset), (ints, lost), times, (now, size), (codec, reason, name))| Grow {
            // Streams of different kinds share numbers: each kind has its own.
            ssrc: [1, 0xFFFF_FFFF, 77_777][ssrc as usize],
            reset,
            ints,
            lost,
            times,
            now: now.map(u32::from),
            size: (size.0 as u32, size.1 as u32),
            codec,
            reason,
            name,
        })
}
fn streams() -> impl Strategy<Value = Vec<Grow>> {
    vec(grow(), 0..4).prop_map(|mut v| {
        let mut seen = vec![];
        v.retain(|g| {
            let new = !seen.contains(&g.ssrc);
            seen.push(g.ssrc);
            new
        });
        v
    })
}
type Route = (usize, usize, bool, u8, bool);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Report {
    /// microseconds since the previous one
    after: u64,
    audio_send: Vec<Grow>,
    video_send: Vec<Grow>,
    audio_recv: Vec<Grow>,
    video_recv: Vec<Grow>,
    connection: ([u32; 2], [u32; 4]),
    pairs: Vec<Option<Vec<u8>>>,
    raw: Vec<u8>,
    route: Option<Route>,
    collect: Option<bool>,
    take: bool,
    /// a new consumer from here on
    consumer: bool,
    missing: u8,
}
fn report() -> impl Strategy<Value = Report> {
    (
        prop_oneof![
            1 => Just(0u64),
            4 => select_time(),
            2 => 1u64..30_000_000,
        ],
        (streams(), streams(), streams(), streams()),
        (any::<[u32; 2]>(), any::<[u32; 4]>()),
        (vec(option::of(vec(1u8..=255, 0..6)), 0..3), vec(1u8..=255, 0..12)),
        (
            option::weighted(0.4, (0usize..5, 0usize..5, any::<bool>(), 0u8..4, any::<bool>())),
            option::weighted(0.2, any::<bool>()),
            any::<bool>(),
            prop::bool::weighted(0.1),
            prop_oneof![9 => Just(0u8), 1 => Just(1u8)],
        ),
    )
        .prop_map(
            |(
                after,
                (audio_send, video_send, audio_recv, video_recv),
                connection,
                (pairs, raw),
                (route, collect, take, consumer, missing),
            )| Report {
                after,
                audio_send,
                video_send,
                audio_recv,
                video_recv,
                connection,
                pairs,
                raw,
                route,
                collect,
                take,
                consumer,
                missing,
            },
        )
}
fn select_time() -> impl Strategy<Value = u64> {
    proptest::sample::select(vec![1_000_000u64, 2_000_000, 10_000_000, 1, 999])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    id: u64,
    initial_s: u32,
    start_us: i64,
    /// nobody consumes at first
    silent: bool,
    reports: Vec<Report>,
}
fn call() -> impl Strategy<Value = Call> {
    (
        any::<u64>(),
        prop_oneof![1 => Just(0u32), 3 => 1u32..20],
        prop_oneof![1 => Just(0i64), 1 => 1i64..1000, 4 => 1_700_000_000_000_000i64..1_800_000_000_000_000],
        prop::bool::weighted(0.2),
        vec(report(), 1..10),
    )
        .prop_map(|(id, initial_s, start_us, silent, reports)| Call { id, initial_s, start_us, silent, reports })
}

fn route(r: &Route) -> NetworkRoute {
    use NetworkAdapterType::*;
    let a = [Unknown, Ethernet, Wifi, Vpn, Cellular5G];
    NetworkRoute {
        local_adapter_type: a[r.0],
        local_adapter_type_under_vpn: a[r.1],
        local_relayed: r.2,
        local_relay_protocol: [
            TransportProtocol::Udp,
            TransportProtocol::Tcp,
            TransportProtocol::Tls,
            TransportProtocol::Unknown,
        ][r.3 as usize],
        remote_relayed: r.4,
    }
}
fn codec(n: u8) -> StatsVideoCodecType {
    [StatsVideoCodecType::Invalid, StatsVideoCodecType::Vp8, StatsVideoCodecType::Vp9][n as usize]
}

/// A stream's counters as the engine counts them.
#[derive(Clone, Debug, Default)]
struct Count {
    ints: [u64; 10],
    lost: i32,
    times: [f64; 6],
}
impl Count {
    fn advance(&mut self, g: &Grow) {
        for (k, (c, d)) in self.ints.iter_mut().zip(&g.ints).enumerate() {
            *c = if g.reset & (1 << k) != 0 { *d as u64 } else { *c + *d as u64 };
        }
        for (k, (c, d)) in self.times.iter_mut().zip(&g.times).enumerate() {
            let d = *d as f64 / 1024.0;
            *c = if g.reset & (1 << (k + 10)) != 0 { d } else { *c + d };
        }
        self.lost = if g.reset & (1 << 16) != 0 { g.lost } else { self.lost + g.lost };
    }
}
/// How much a counter grew; one that went backwards tells nothing.
fn grown(now: &Count, before: &Count) -> ([f64; 10], f64, [f64; 6]) {
    let mut i = [0.0; 10];
    for k in 0..10 {
        i[k] = now.ints[k].saturating_sub(before.ints[k]) as f64;
    }
    let mut t = [0.0; 6];
    for k in 0..6 {
        t[k] = (now.times[k] - before.times[k]).max(0.0);
    }
    (i, (now.lost - before.lost) as f64, t)
}
fn per(a: f64, b: f64) -> Option<f64> {
    (b != 0.0).then(|| a / b)
}
fn rate(a: f64, b: f64) -> f64 {
    per(a, b).unwrap_or(0.0)
}

#[derive(Default)]
struct Known {
    count: Count,
    delays: (f64, f64),
}
type Streams = BTreeMap<u32, Known>;

fn audio_send(g: &Grow, all: &mut Streams, s: f64, o: &mut Obs) -> (AudioSenderStatistics, Shot) {
    let k = all.entry(g.ssrc).or_default();
    let before = k.count.clone();
    k.count.advance(g);
    let c = &k.count;
    let (i, lost, t) = grown(c, &before);
    o.label_if(before.ints[0] > 0, "stream seen before");
    let (packets, bytes) = (i[0], i[1]);
    let real = AudioSenderStatistics {
        ssrc: g.ssrc,
        packets_sent: c.ints[0] as u32,
        bytes_sent: c.ints[1],
        remote_packets_lost: c.lost,
        remote_jitter: g.now[0] as f64 / 1000.0,
        remote_round_trip_time: g.now[1] as f64 / 1000.0,
        total_audio_energy: c.times[0],
    };
    let shot = Shot {
        kind: "audio,send",
        num: [
            ("ssrc", g.ssrc as f64),
            ("packets_per_second", rate(packets, s)),
            ("average_packet_size", rate(bytes, packets)),
            ("bitrate", rate(bytes * 8.0, s)),
            ("remote_packets_lost_pct", rate(lost.max(0.0) * 100.0, packets)),
            ("remote_jitter", g.now[0] as f64),
            ("remote_rtt", g.now[1] as f64),
            ("audio_energy", t[0]),
        ]
        .into(),
        ..Default::default()
    };
    (real, shot)
}

fn video_send(
    g: &Grow,
    all: &mut Streams,
    s: f64,
    name: *const c_char,
    o: &mut Obs,
) -> (VideoSenderStatistics, Shot) {
    let k = all.entry(g.ssrc).or_default();
    let mut before = k.count.clone();
    k.count.advance(g);
    let c = &k.count;
    // packets, bytes, frames, key frames, nack, pli never go backwards but in a new stream
    if [0, 1, 2, 3, 6, 7].iter().any(|k| c.ints[*k] < before.ints[*k]) {
        o.label("outgoing video started over");
        before = Count::default();
    }
    let (i, lost, t) = grown(c, &before);
    let real = VideoSenderStatistics {
        ssrc: g.ssrc,
        packets_sent: c.ints[0] as u32,
        bytes_sent: c.ints[1],
        frames_encoded: c.ints[2] as u32,
        key_frames_encoded: c.ints[3] as u32,
        total_encode_time: c.times[0],
        frame_width: g.size.0,
        frame_height: g.size.1,
        retransmitted_packets_sent: c.ints[4],
        retransmitted_bytes_sent: c.ints[5],
        total_packet_send_delay: c.times[1],
        nack_count: c.ints[6] as u32,
        pli_count: c.ints[7] as u32,
        quality_limitation_reason: g.reason as u32,
        quality_limitation_resolution_changes: c.ints[8] as u32,
        remote_packets_lost: c.lost,
        remote_jitter: g.now[0] as f64 / 1000.0,
        remote_round_trip_time: g.now[1] as f64 / 1000.0,
        codec: codec(g.codec),
        raw_encoder_implementation: webrtc::ptr::Borrowed::from_ptr(name),
    };
    let shot = Shot {
        kind: "video,send",
        num: [
            ("ssrc", g.ssrc as f64),
            ("packets_per_second", rate(i[0], s)),
            ("average_packet_size", rate(i[1], i[0])),
            ("bitrate", rate(i[1] * 8.0, s)),
            ("framerate", rate(i[2], s)),
            ("key_frames_encoded", i[3]),
            ("encode_time_per_frame", rate(t[0] * 1000.0, i[2])),
            ("width", g.size.0 as f64),
            ("height", g.size.1 as f64),
            ("retransmitted_packets_sent", i[4]),
            ("retransmitted_bitrate", rate(i[5] * 8.0, s)),
            ("send_delay_per_packet", rate(t[1] * 1000.0, i[0])),
            ("nack_count", i[6]),
            ("pli_count", i[7]),
            ("quality_limitation_resolution_changes", i[8]),
            ("remote_packets_lost_pct", rate(lost.max(0.0) * 100.0, i[0])),
            ("remote_jitter", g.now[0] as f64),
            ("remote_round_trip_time", g.now[1] as f64),
        ]
        .into(),
        text: [
            (
                "quality_limitation_reason",
                ["none", "cpu", "bandwidth", "other", "4", "5"][g.reason as usize].to_string(),
            ),
            ("codec", format!("{:?}", codec(g.codec))),
            ("implementation", implementation(g)),
        ]
        .into(),
    };
    (real, shot)
}
fn implementation(g: &Grow) -> String {
    format!("{:?}", g.name.as_ref().map(|n| String::from_utf8_lossy(n).into_owned()))
}

fn audio_recv(g: &Grow, all: &mut Streams, s: f64, o: &mut Obs) -> (AudioReceiverStatistics, Shot) {
    let k = all.entry(g.ssrc).or_default();
    let before = k.count.clone();
    k.count.advance(g);
    let c = &k.count;
    let (i, lost, t) = grown(c, &before);
    let real = AudioReceiverStatistics {
        ssrc: g.ssrc,
        packets_received: c.ints[0] as u32,
        packets_lost: c.lost,
        bytes_received: c.ints[1],
        jitter: g.now[0] as f64 / 1000.0,
        total_audio_energy: c.times[0],
        jitter_buffer_delay: c.times[1],
        jitter_buffer_target_delay: c.times[2],
        jitter_buffer_emitted_count: c.ints[2],
        jitter_buffer_flushes: c.ints[3],
        estimated_playout_timestamp: g.now[1] as f64,
        total_samples_received: c.ints[4],
        concealed_samples: c.ints[5],
        silent_concealed_samples: c.ints[6],
        fec_packets_received: c.ints[7],
        packets_discarded: c.ints[8],
        relative_packet_arrival_delay: c.times[3],
    };
    // Delay per sample, as last known.
    if i[2] == 0.0 {
        o.label("no samples played meanwhile");
    } else {
        k.delays = (1000.0 * t[1] / i[2], 1000.0 * t[2] / i[2]);
    }
    // Of the packets that were due, those that never came or came in vain.
    let due = i[0] + lost;
    o.label_if(lost < 0.0, "packets given up for lost came after all");
    let pct = if due > 0.0 { (100.0 * (lost + i[8]) / due).max(0.0) } else { 0.0 };
    let shot = Shot {
        kind: "audio,recv",
        num: [
            ("ssrc", g.ssrc as f64),
            ("packets_per_second", rate(i[0], s)),
            ("packets_lost_pct", pct),
            ("bitrate", rate(i[1] * 8.0, s)),
            ("jitter", g.now[0] as f64),
            ("jitter_buffer_delay", k.delays.0),
            ("jitter_buffer_target_delay", k.delays.1),
            ("jitter_buffer_flushes", i[3]),
            ("audio_energy", t[0]),
            ("concealed_samples_pct", rate((i[5] - i[6]).max(0.0) * 100.0, i[4])),
            ("fec_packets_received", i[7]),
            ("relative_arrival_delay_per_packet", rate(1000.0 * t[3], i[0])),
        ]
        .into(),
        ..Default::default()
    };
    (real, shot)
}

fn video_recv(
    g: &Grow,
    all: &mut Streams,
    s: f64,
    name: *const c_char,
) -> (VideoReceiverStatistics, Shot) {
    let k = all.entry(g.ssrc).or_default();
    let before = k.count.clone();
    k.count.advance(g);
    let c = &k.count;
    let (i, lost, t) = grown(c, &before);
    let lost = lost.max(0.0);
    let real = VideoReceiverStatistics {
        ssrc: g.ssrc,
        packets_received: c.ints[0] as u32,
        packets_lost: c.lost,
        bytes_received: c.ints[1],
        frames_received: c.ints[2] as u32,
        frames_decoded: c.ints[3] as u32,
        key_frames_decoded: c.ints[4] as u32,
        total_decode_time: c.times[0],
        frame_width: g.size.0,
        frame_height: g.size.1,
        freeze_count: c.ints[5] as u32,
        total_freezes_duration: c.times[1],
        jitter: g.now[0] as f64 / 1000.0,
        jitter_buffer_delay: c.times[3],
        jitter_buffer_emitted_count: c.ints[6],
        jitter_buffer_flushes: c.ints[7],
        estimated_playout_timestamp: g.now[1] as f64,
        codec: codec(g.codec),
        raw_decoder_implementation: webrtc::ptr::Borrowed::from_ptr(name),
    };
    let shot = Shot {
        kind: "video,recv",
        num: [
            ("ssrc", g.ssrc as f64),
            ("packets_per_second", rate(i[0], s)),
            ("packets_lost_pct", rate(lost * 100.0, i[0] + lost)),
            ("bitrate", rate(i[1] * 8.0, s)),
            ("framerate", rate(i[3], s)),
            ("key_frames_decoded", i[4]),
            ("decode_time_per_frame", rate(t[0] * 1000.0, i[3])),
            ("width", g.size.0 as f64),
            ("height", g.size.1 as f64),
            ("jitter", g.now[0] as f64),
            ("freeze_count", i[5]),
        ]
        .into(),
        text: [("codec", format!("{:?}", codec(g.codec))), ("implementation", implementation(g))].into(),
    };
    (real, shot)
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 2e-5 * a.abs().max(b.abs())
}

#[repr(C)]
struct PairC {
    id: *const c_char,
    rest: [f64; 2],
    counts: [u64; 4],
}
fn list<T>(v: &[T], null: bool) -> *const T {
    if v.is_empty() && null { std::ptr::null() } else { v.as_ptr() }
}

fn check_call(call: &Call, o: &mut Obs) -> Res {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        log::set_logger(&Capture).unwrap();
        log::set_max_level(log::LevelFilter::Info);
    });
    let w = new_local_world();
    let mut obs: Box<StatsObserver> =
        create_stats_observer(CallId::new(call.id), Duration::from_secs(call.initial_s as u64));
    let p = w.last(Kind::Stats).unwrap();
    let (x, cb) = at(p)
        .with(|d| match d {
            Data::Stats { observer, cbs, .. } => (*observer, *cbs),
            _ => panic!(),
        })
        .unwrap();
    ensure_eq!(x, &*obs as *const StatsObserver as usize);
    // Asked for through a connection.
    let pc = fake::blank_pc();
    let peer = PeerConnection::new(
        webrtc::Arc::from_owned(unsafe { webrtc::ptr::OwnedRc::from_ptr(pc as *const _) }),
        None,
        None,
    );
    ensure!(obs.take_stats_report().is_none());
    LINES.with(|l| l.borrow_mut().clear());
    StatsObserver::print_headers();
    let headers: Vec<Vec<String>> = LINES.with(|l| {
        l.borrow_mut().drain(..).map(|l| l.split(',').map(|c| c.trim().to_string()).collect()).collect()
    });
    let mut taker = None;
    if !call.silent {
        let t = Taker::default();
        obs.set_stats_snapshot_consumer(Box::new(t.clone()));
        taker = Some(t);
    }
    let mut all: [Streams; 4] = Default::default();
    let mut now = call.start_us;
    let mut before: i64 = 0;
    let (mut reported, mut current): (Option<NetworkRoute>, Option<NetworkRoute>) = (None, None);
    let mut raws = vec![];
    let mut requests = 0;
    for (n, r) in call.reports.iter().enumerate() {
        if n > 0 {
            now += r.after as i64;
        }
        if r.consumer {
            let t = Taker::default();
            obs.set_stats_snapshot_consumer(Box::new(t.clone()));
            taker = Some(t);
        }
        if let Some(x) = &r.route {
            current = Some(route(x));
            obs.set_network_route(route(x));
        }
        if let Some(c) = r.collect {
            obs.set_collect_raw_stats_report(c);
            raws.push(c);
        }
        let _ = peer.get_stats(&obs);
        requests += 1;
        let s = if before > 0 { (now - before) as f64 / 1e6 } else { call.initial_s as f64 };
        o.label_if(s == 0.0, "no time passed");
        o.nontrivial_if(n > 0 && !(r.audio_send.is_empty() && r.audio_recv.is_empty() && r.video_send.is_empty() && r.video_recv.is_empty()));
        // What the engine says, and what should come of it.
        let names = |v: &[Grow]| -> Vec<Option<CString>> {
            v.iter().map(|g| g.name.as_ref().map(|n| CString::new(n.clone()).unwrap())).collect()
        };
        let (vs_names, vr_names) = (names(&r.video_send), names(&r.video_recv));
        let ptr = |n: &Option<CString>| n.as_ref().map_or(std::ptr::null(), |n| n.as_ptr());
        let mut shots = vec![];
        let (mut a, mut b, mut c, mut d) = (vec![], vec![], vec![], vec![]);
        for g in &r.audio_send {
            let (x, y) = audio_send(g, &mut all[0], s, o);
            a.push(x);
            shots.push(y);
        }
        for (g, n) in r.video_send.iter().zip(&vs_names) {
            let (x, y) = video_send(g, &mut all[1], s, ptr(n), o);
            b.push(x);
            shots.push(y);
        }
        for g in &r.audio_recv {
            let (x, y) = audio_recv(g, &mut all[2], s, o);
            c.push(x);
            shots.push(y);
        }
        for (g, n) in r.video_recv.iter().zip(&vr_names) {
            let (x, y) = video_recv(g, &mut all[3], s, ptr(n));
            d.push(x);
            shots.push(y);
        }
        let mut nominated = ConnectionStatistics::default();
        nominated.current_round_trip_time = r.connection.0[0] as f64 / 1000.0;
        nominated.available_outgoing_bitrate = r.connection.0[1] as f64;
        nominated.requests_sent = r.connection.1[0] as u64;
        nominated.responses_received = r.connection.1[1] as u64;
        nominated.requests_received = r.connection.1[2] as u64;
        nominated.responses_sent = r.connection.1[3] as u64;
        let pair_ids: Vec<Option<CString>> =
            r.pairs.iter().map(|n| n.as_ref().map(|n| CString::new(n.clone()).unwrap())).collect();
        let pairs: Vec<PairC> =
            pair_ids.iter().map(|n| PairC { id: ptr(n), rest: [1.0, 2.0], counts: [1, 2, 3, 4] }).collect();
        let null = r.missing == 1;
        let stats = MediaStatistics {
            timestamp_us: now,
            audio_sender_statistics_size: a.len() as u32,
            audio_sender_statistics: list(&a, null),
            video_sender_statistics_size: b.len() as u32,
            video_sender_statistics: list(&b, null),
            audio_receiver_statistics_size: c.len() as u32,
            audio_receiver_statistics: list(&c, null),
            video_receiver_statistics_size: d.len() as u32,
            video_receiver_statistics: list(&d, null),
            nominated_connection_statistics: nominated,
            connection_statistics: list(&pairs, null) as *const ConnectionStatistics,
            connection_statistics_size: pairs.len() as u32,
        };
        let raw = CString::new(r.raw.clone()).unwrap();
        LINES.with(|l| l.borrow_mut().clear());
        (cb.on_complete)(x as P, &stats as *const MediaStatistics as P, raw.as_ptr());
        before = now;
        // The route in use when the period began (or the first one known).
        let during = reported.or(current);
        reported = current;
        let conn = Shot {
            kind: "connection",
            num: [
                ("timestamp_us", now as f64),
                ("current_round_trip_time", r.connection.0[0] as f64),
                ("available_outgoing_bitrate", r.connection.0[1] as f64),
                ("requests_sent", r.connection.1[0] as f64),
                ("responses_received", r.connection.1[1] as f64),
                ("requests_received", r.connection.1[2] as f64),
                ("responses_sent", r.connection.1[3] as f64),
            ]
            .into(),
            text: [
                ("call_id", format!("0x{:x}", call.id)),
                ("route", format!("{during:?}")),
            ]
            .into(),
        };
        shots.insert(0, conn);
        shots.insert(0, Shot { kind: "system", ..Default::default() });
        shots.insert(0, Shot { kind: "begin", ..Default::default() });
        shots.push(Shot { kind: "end", ..Default::default() });
        let lines = LINES.with(|l| std::mem::take(&mut *l.borrow_mut()));
        if let Some(t) = &taker {
            let got = std::mem::take(&mut *t.0.lock().unwrap());
            let kinds: Vec<_> = got.iter().map(|s| s.kind).collect();
            let want: Vec<_> = shots.iter().map(|s| s.kind).collect();
            ensure_eq!(kinds, want, "what is reported, in order");
            for (g, x) in got.iter().zip(&shots) {
                for (name, v) in &g.num {
                    ensure!(v.is_finite(), "{} {} is {} in report {} ({} s)", g.kind, name, v, n, s);
                }
                for (name, v) in &x.num {
                    let Some(have) = g.num.get(name) else { fail!("no {name}") };
                    ensure!(near(*have, *v), "{} {} is {} and not {} in report {} ({} s)", g.kind, name, have, v, n, s);
                }
                for (name, v) in &x.text {
                    ensure_eq!(g.text.get(name), Some(v), "{} {} in report {}", g.kind, name, n);
                }
            }
            // The log says the same, under the right headings.
            ensure_eq!(lines.len(), got.len() - 2, "lines logged");
            for (line, g) in lines.iter().zip(&got[1..]) {
                check_line(line, g, &headers)?;
            }
        }
        let text = String::from_utf8_lossy(&r.raw).into_owned();
        if r.take {
            ensure_eq!(obs.take_stats_report(), (!text.is_empty()).then_some(text));
            ensure_eq!(obs.take_stats_report(), None);
        }
    }
    at(p).with(|d| {
        if let Data::Stats { raw, .. } = d {
            ensure_eq!(*raw, raws);
        }
        Ok(())
    })
    .unwrap()?;
    ensure_eq!(at(pc).pc(|s| s.calls.clone()), vec![PcCall::GetStats; requests]);
    drop(peer);
    drop(obs);
    w.audit(true).map_err(|e| e.into())
}

fn check_line(line: &str, g: &Shot, headers: &[Vec<String>]) -> Res {
    let kind: Vec<&str> = g.kind.split(',').collect();
    let h = headers.iter().find(|h| {
        h.len() > kind.len() && h[1..=kind.len()].iter().map(|s| s.as_str()).eq(kind.iter().copied())
    });
    let Some(h) = h else { fail!("no headings for {}", g.kind) };
    // The last one may contain anything.
    let cells: Vec<&str> = line.splitn(h.len(), ',').collect();
    ensure_eq!(cells.len(), h.len(), "{line}");
    for (name, cell) in h.iter().zip(cells) {
        let name = match name.as_str() {
            "remote_round_trip_time" if g.kind == "audio,send" => "remote_rtt",
            "cpu_usage_pct" => "cpu_pct",
            "resolution" => {
                ensure_eq!(cell, format!("{}x{}", g.num["width"], g.num["height"]));
                continue;
            }
            n => n,
        };
        if let Some(v) = g.num.get(name) {
            let cell = cell.trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '%');
            let digits = cell.split_once('.').map_or(0, |(_, d)| d.len());
            let Ok(shown) = cell.parse::<f64>() else { fail!("{name} is shown as {cell}") };
            let room = 0.51 * 10f64.powi(-(digits as i32)) + 1e-5 * v.abs();
            ensure!((shown - v).abs() <= room, "{} {} is {} but shown as {}", g.kind, name, v, cell);
        } else if name == "call_id" {
            ensure_eq!(cell, g.text["call_id"]);
        } else if name == "quality_limitation_reason" {
            ensure_eq!(cell, g.text[name]);
        } else if name == "codec" {
            ensure_eq!(cell.to_lowercase(), g.text[name].to_lowercase());
        }
    }
    Ok(())
}

pub fn n08(r: &mut Runner) {
    no_audio_backend();
    r.facet(
        "figures",
        "a report after the first, with a stream in it",
        par(60_000),
        call,
        check_call,
    );
}
