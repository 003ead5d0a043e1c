//! C14 the record kept about a call: every report and event in, the summary handed to the app out.
use std::{collections::BTreeMap, thread, time::Duration, time::SystemTime};

use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par};
use prost::Message;
use proptest::{collection::vec, option, prelude::*};
use ringrtc::{
    common::{CallEndReason, CallId, ConnectionState},
    core::{
        call_fsm::CallEvent,
        call_summary::{CallSummary, DirectCallSummary, GroupCallSummary, MediaQualityStats},
        connection::ConnectionObserverEvent,
        group_call,
        signaling,
    },
    protobuf::call_summary::{
        self as pb, CallTelemetry, StatsSet, StreamStats, StreamSummaries, StreamSummary,
    },
    webrtc::{
        peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol},
        stats_observer::{
            AudioReceiverStatsSnapshot, AudioSenderStatsSnapshot, ConnectionStatsSnapshot,
            StatsSnapshot, StatsVideoCodecType, SystemStatsSnapshot, VideoReceiverStatsSnapshot,
            VideoSenderStatsSnapshot,
        },
    },
};
use serde::{Deserialize, Serialize};

const BLOB_MAX: usize = 65536;
const STREAMS_MAX: usize = 500;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum K {
    ASend,
    ARecv,
    VSend,
    VRecv,
}

/// One stream's report: what the summary is made from, for every kind of stream.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    kind: K,
    ssrc: u32,
    bitrate: F,
    loss: f32,
    jitter: f64,
    rtt: f64,
    rate: f32,
    delay: f64,
    concealed: f32,
    fec: u64,
    flushes: u64,
    arrival: f64,
    freezes: u32,
    codec: u8,
    implementation: Option<String>,
}
/// A figure that may also be one no figure should be.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum F {
    Num(f32),
    Nan,
    Inf,
    NegInf,
}
impl F {
    fn get(self) -> f32 {
        match self {
            F::Num(x) => x,
            F::Nan => f32::NAN,
            F::Inf => f32::INFINITY,
            F::NegInf => f32::NEG_INFINITY,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Route {
    adapter: u8,
    under_vpn: u8,
    local_relayed: bool,
    remote_relayed: bool,
}
impl Route {
    fn get(self) -> NetworkRoute {
        NetworkRoute {
            local_adapter_type: adapter(self.adapter),
            local_adapter_type_under_vpn: adapter(self.under_vpn),
            local_relayed: self.local_relayed,
            local_relay_protocol: TransportProtocol::Udp,
            remote_relayed: self.remote_relayed,
        }
    }
}
fn adapter(n: u8) -> NetworkAdapterType {
    use NetworkAdapterType::*;
    [
        Unknown, Ethernet, Wifi, Cellular, Vpn, Loopback, Default, Cellular2G, Cellular3G,
        Cellular4G, Cellular5G,
    ][n as usize % 11]
}
fn is_mobile(n: u8) -> bool {
    matches!(n % 11, 3 | 7..=10)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Begin,
    End,
    System,
    Connection { rtt: f64, route: Option<Route> },
    Stream(Stream),
    /// `n` streams of one kind with consecutive numbers.
    Many { proto: Stream, n: u16 },
    /// A round of reporting: begin, the streams, end.
    Limits { limit_ms: u32, period_ms: u32 },
    IceUp,
    IceDown,
    RouteChanged { route: Route, stay_ms: u8 },
    State(u8),
    Offer,
    Answer,
    Answered,
    /// Something the record takes no notice of.
    Other(u8),
    GroupState(u8),
    Pause,
}

fn stream_report(s: &Stream) -> StatsSnapshot {
    let codec = match s.codec % 3 {
        0 => StatsVideoCodecType::Invalid,
        1 => StatsVideoCodecType::Vp8,
        _ => StatsVideoCodecType::Vp9,
    };
    match s.kind {
        K::ASend => StatsSnapshot::AudioSender(AudioSenderStatsSnapshot {
            ssrc: s.ssrc,
            packets_per_second: 50.0,
            average_packet_size: 100.0,
            bitrate: s.bitrate.get(),
            remote_packets_lost_pct: s.loss,
            remote_jitter: s.jitter,
            remote_rtt: s.rtt,
            audio_energy: 0.5,
        }),
        K::ARecv => StatsSnapshot::AudioReceiver(AudioReceiverStatsSnapshot {
            ssrc: s.ssrc,
            packets_per_second: 50.0,
            packets_lost_pct: s.loss,
            bitrate: s.bitrate.get(),
            jitter: s.jitter,
            jitter_buffer_delay: s.delay,
            jitter_buffer_target_delay: 77.0,
            jitter_buffer_flushes: s.flushes,
            audio_energy: 0.25,
            concealed_samples_pct: s.concealed,
            fec_packets_received: s.fec,
            relative_arrival_delay_per_packet: s.arrival,
        }),
        K::VSend => StatsSnapshot::VideoSender(VideoSenderStatsSnapshot {
            ssrc: s.ssrc,
            packets_per_second: 40.0,
            average_packet_size: 900.0,
            bitrate: s.bitrate.get(),
            framerate: s.rate,
            key_frames_encoded: 1,
            encode_time_per_frame: 3.0,
            width: 640,
            height: 480,
            retransmitted_packets_sent: 2,
            retransmitted_bitrate: 11.0,
            send_delay_per_packet: 6.0,
            nack_count: 1,
            pli_count: 2,
            quality_limitation_reason: "none".into(),
            quality_limitation_resolution_changes: 0,
            remote_packets_lost_pct: s.loss,
            remote_jitter: s.jitter,
            remote_round_trip_time: s.rtt,
            codec,
            encoder_implementation: s.implementation.clone(),
        }),
        K::VRecv => StatsSnapshot::VideoReceiver(VideoReceiverStatsSnapshot {
            ssrc: s.ssrc,
            packets_per_second: 40.0,
            packets_lost_pct: s.loss,
            bitrate: s.bitrate.get(),
            framerate: s.rate,
            key_frames_decoded: 1,
            decode_time_per_frame: 3.0,
            width: 640,
            height: 480,
            jitter: s.jitter,
            freeze_count: s.freezes,
            codec,
            decoder_implementation: s.implementation.clone(),
        }),
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug, Default)]
struct Sum {
    figures: BTreeMap<&'static str, Vec<f32>>,
    fec: Option<u64>,
    flushes: Option<u64>,
    codec: Option<i32>,
    implementation: Option<String>,
}
impl Sum {
    fn add(&mut self, name: &'static str, x: f32) {
        let v = self.figures.entry(name).or_default();
        if x.is_finite() {
            v.push(x);
        }
    }
}

#[derive(Debug)]
struct Model {
    max_sets: usize,
    sets: Vec<StatsSet>,
    fresh: bool,
    streams: BTreeMap<K, BTreeMap<u32, Sum>>,
    medians: BTreeMap<&'static str, Vec<f64>>,
    mobile: bool,
    connected: bool,
    ice_connected: bool,
    offer: bool,
    answer: bool,
    answered: bool,
    switches: u32,
    reconnects: u32,
    relay_now: bool,
    relay_certain: bool,
    relay_possible: bool,
}
impl Model {
    fn new(max_sets: usize) -> Self {
        Model {
            max_sets,
            sets: vec![],
            fresh: true,
            streams: BTreeMap::new(),
            medians: BTreeMap::new(),
            mobile: false,
            connected: false,
            ice_connected: false,
            offer: false,
            answer: false,
            answered: false,
            switches: 0,
            reconnects: 0,
            relay_now: false,
            relay_certain: false,
            relay_possible: false,
        }
    }
    fn set(&mut self) -> &mut StatsSet {
        if self.fresh {
            self.fresh = false;
            if self.sets.len() == self.max_sets {
                self.sets.remove(0);
            }
            // The size of a time is always the same: six bytes.
            self.sets.push(StatsSet { timestamp: Some(1_700_000_000_000), ..Default::default() });
        }
        self.sets.last_mut().unwrap()
    }
    fn median(&mut self, name: &'static str, x: f64) {
        self.medians.entry(name).or_default().push(x);
    }
    fn stream(&mut self, s: &Stream) {
        let (names, video): ([&'static str; 3], bool) = match s.kind {
            K::ASend => (["a jitter send", "a loss send", "a rtt"], false),
            K::ARecv => (["a jitter recv", "a loss recv", ""], false),
            K::VSend => (["v jitter send", "v loss send", "v rtt"], true),
            K::VRecv => (["v jitter recv", "v loss recv", ""], true),
        };
        let sending = matches!(s.kind, K::ASend | K::VSend);
        self.median(names[0], s.jitter);
        self.median(names[1], s.loss as f64);
        if sending {
            self.median(names[2], s.rtt);
        }
        let of_kind = self.streams.entry(s.kind).or_default();
        if of_kind.contains_key(&s.ssrc) || of_kind.len() < STREAMS_MAX {
            let sum = of_kind.entry(s.ssrc).or_default();
            sum.add("bitrate", s.bitrate.get());
            sum.add("loss", s.loss);
            sum.add("jitter", s.jitter as f32);
            if s.kind == K::ARecv {
                sum.add("concealed", s.concealed);
                sum.add("arrival", s.arrival as f32);
                *sum.fec.get_or_insert(0) += s.fec;
                *sum.flushes.get_or_insert(0) += s.flushes;
            }
            if s.kind == K::VRecv {
                sum.add("freezes", s.freezes as f32);
            }
            if video {
                sum.codec = [None, Some(8), Some(9)][s.codec as usize % 3];
                sum.implementation = s.implementation.clone();
            }
        }
        let one = StreamStats {
            ssrc: Some(s.ssrc),
            bitrate: Some(s.bitrate.get()),
            packet_loss: Some(s.loss),
            jitter: Some(s.jitter as f32),
            rtt: sending.then_some(s.rtt as f32),
            jitter_buffer_delay: (s.kind == K::ARecv).then_some(s.delay as f32),
            framerate: video.then_some(s.rate),
        };
        let kind = s.kind;
        let set = self.set();
        match kind {
            K::ASend => set.audio_send_stats.push(one),
            K::ARecv => set.audio_recv_stats.push(one),
            K::VSend => set.video_send_stats.push(one),
            K::VRecv => set.video_recv_stats.push(one),
        }
    }
    fn event(&mut self, e: pb::Event) {
        self.set().events.push(e as i32);
    }
    fn summaries(&self) -> StreamSummaries {
        let of = |k: K| -> Vec<StreamSummary> {
            self.streams
                .get(&k)
                .into_iter()
                .flatten()
                .map(|(ssrc, s)| StreamSummary {
                    bitrate: dist(s, "bitrate"),
                    packet_loss_pct: dist(s, "loss"),
                    jitter: dist(s, "jitter"),
                    freeze_count: dist(s, "freezes"),
                    video_codec: s.codec,
                    ssrc: Some(*ssrc),
                    codec_implementation: s.implementation.clone(),
                    audio_concealment_pct: dist(s, "concealed"),
                    audio_redundant_packets: s.fec,
                    audio_jitter_buffer_flushes: s.flushes,
                    audio_relative_arrival_delay: dist(s, "arrival"),
                })
                .collect()
        };
        StreamSummaries {
            audio_send_stream_summaries: of(K::ASend),
            audio_recv_stream_summaries: of(K::ARecv),
            video_send_stream_summaries: of(K::VSend),
            video_recv_stream_summaries: of(K::VRecv),
        }
    }
    fn telemetry(&self, group: bool) -> CallTelemetry {
        let t = Some(1_700_000_000_000u64);
        let on = |c: bool| if c { t } else { None };
        let mut x = CallTelemetry {
            version: 1,
            start_time: t.unwrap(),
            connect_time: on(self.connected),
            end_time: t.unwrap(),
            cellular: Some(self.mobile),
            group_call_summary: None,
            direct_call_summary: None,
            stats_sets: self.sets.clone(),
        };
        if group {
            x.group_call_summary =
                Some(pb::GroupCallSummary { stream_summaries: Some(self.summaries()) });
        } else {
            x.direct_call_summary = Some(pb::DirectCallSummary {
                stream_summaries: Some(self.summaries()),
                ice_candidate_switch_count: Some(self.switches),
                ice_reconnect_count: Some(self.reconnects),
                relayed: Some(self.relay_certain),
                offer_sent_time: on(self.offer),
                answer_sent_time: on(self.answer),
                answer_received_time: on(self.answered),
                ice_connected_time: on(self.ice_connected),
            });
        }
        x
    }
}
fn dist(s: &Sum, name: &str) -> Option<pb::DistributionSummary> {
    let v = s.figures.get(name)?;
    if v.is_empty() {
        return None;
    }
    let n = v.len() as f64;
    let mean = v.iter().map(|x| *x as f64).sum::<f64>() / n;
    let var = v.iter().map(|x| (*x as f64 - mean).powi(2)).sum::<f64>() / n;
    Some(pb::DistributionSummary {
        mean: Some(mean as f32),
        std_dev: Some(var.sqrt() as f32),
        min_val: v.iter().copied().reduce(f32::min),
        max_val: v.iter().copied().reduce(f32::max),
        sample_count: Some(v.len() as u32),
    })
}

// ---------------------------------------------------------------- comparing

fn near(a: f32, b: f32, scale: f32) -> bool {
    (a - b).abs() <= 1e-4 * scale.abs() + 1e-6
}
fn same_dist(
    what: &str,
    got: &Option<pb::DistributionSummary>,
    want: &Option<pb::DistributionSummary>,
) -> Res {
    let (Some(g), Some(w)) = (got, want) else {
        ensure!(got.is_none() && want.is_none(), "{what}: got {got:?}, expected {want:?}");
        return Ok(());
    };
    ensure_eq!((g.min_val, g.max_val, g.sample_count), (w.min_val, w.max_val, w.sample_count));
    let size = w.min_val.unwrap().abs().max(w.max_val.unwrap().abs());
    let (gm, gs) = (g.mean.unwrap_or(f32::NAN), g.std_dev.unwrap_or(f32::NAN));
    ensure!(near(gm, w.mean.unwrap(), size), "{what}: mean {gm}, expected {:?}", w.mean);
    // The square root of a rounding error is much bigger than the error.
    ensure!(
        (gs - w.std_dev.unwrap()).abs() <= 2e-3 * size + 1e-6,
        "{what}: standard deviation {gs}, expected {:?}",
        w.std_dev
    );
    Ok(())
}
fn same_summaries(got: &StreamSummaries, want: &StreamSummaries) -> Res {
    for (name, g, w) in [
        ("outgoing audio", &got.audio_send_stream_summaries, &want.audio_send_stream_summaries),
        ("incoming audio", &got.audio_recv_stream_summaries, &want.audio_recv_stream_summaries),
        ("outgoing video", &got.video_send_stream_summaries, &want.video_send_stream_summaries),
        ("incoming video", &got.video_recv_stream_summaries, &want.video_recv_stream_summaries),
    ] {
        ensure!(g.len() == w.len(), "{name}: {} streams summed up, expected {}", g.len(), w.len());
        let mut g: Vec<&StreamSummary> = g.iter().collect();
        g.sort_by_key(|s| s.ssrc);
        for (g, w) in g.iter().zip(w) {
            ensure_eq!(g.ssrc, w.ssrc);
            for (f, a, b) in [
                ("bitrate", &g.bitrate, &w.bitrate),
                ("loss", &g.packet_loss_pct, &w.packet_loss_pct),
                ("jitter", &g.jitter, &w.jitter),
                ("freezes", &g.freeze_count, &w.freeze_count),
                ("concealment", &g.audio_concealment_pct, &w.audio_concealment_pct),
                ("arrival delay", &g.audio_relative_arrival_delay, &w.audio_relative_arrival_delay),
            ] {
                same_dist(&format!("{name} {:?} {f}", g.ssrc), a, b)?;
            }
            ensure_eq!(g.video_codec, w.video_codec);
            ensure_eq!(g.codec_implementation, w.codec_implementation);
            ensure_eq!(g.audio_redundant_packets, w.audio_redundant_packets);
            ensure_eq!(g.audio_jitter_buffer_flushes, w.audio_jitter_buffer_flushes);
        }
    }
    Ok(())
}
fn bits(s: &StreamStats) -> (Option<u32>, [Option<u32>; 6]) {
    let b = |x: Option<f32>| x.map(|x| if x.is_nan() { 1 } else { x.to_bits() });
    let figures = [s.bitrate, s.packet_loss, s.jitter, s.rtt, s.jitter_buffer_delay, s.framerate];
    (s.ssrc, figures.map(b))
}
fn same_set(got: &StatsSet, want: &StatsSet) -> Res {
    for (g, w) in [
        (&got.audio_recv_stats, &want.audio_recv_stats),
        (&got.audio_send_stats, &want.audio_send_stats),
        (&got.video_recv_stats, &want.video_recv_stats),
        (&got.video_send_stats, &want.video_send_stats),
    ] {
        let g: Vec<_> = g.iter().map(bits).collect();
        let w: Vec<_> = w.iter().map(bits).collect();
        ensure_eq!(g, w);
    }
    ensure_eq!(got.events, want.events);
    ensure_eq!(got.rtt_stun, want.rtt_stun);
    ensure_eq!(got.relayed, want.relayed);
    Ok(())
}
fn median(what: &str, got: Option<f32>, all: Option<&Vec<f64>>, scale: f64) -> Res {
    let Some(all) = all.filter(|v| !v.is_empty()) else {
        ensure!(got.is_none(), "{what}: {got:?} out of nothing");
        return Ok(());
    };
    let mut v = all.clone();
    v.sort_by(f64::total_cmp);
    let (lo, hi) = (v[(v.len() - 1) / 2] * scale, v[v.len() / 2] * scale);
    let got = got.map(|x| x as f64).unwrap_or(f64::NAN);
    // The summary keeps a sketch that is within one per cent.
    let slack = |x: f64| 0.0201 * x.abs() + 1e-7;
    ensure!(
        got >= lo - slack(lo) && got <= hi + slack(hi),
        "{what}: median {got}, expected {lo}..{hi}"
    );
    Ok(())
}
fn medians(m: &Model, s: &CallSummary) -> Res {
    let q = &s.quality_stats;
    median("connection", q.rtt_median_connection, m.medians.get("connection"), 1.0)?;
    let media = |p: &str, q: &MediaQualityStats| -> Res {
        let of = |n: &str| m.medians.get(format!("{p} {n}").as_str());
        median(&format!("{p} rtt"), q.rtt_median, of("rtt"), 1.0)?;
        median(&format!("{p} jitter out"), q.jitter_median_send, of("jitter send"), 1.0)?;
        median(&format!("{p} jitter in"), q.jitter_median_recv, of("jitter recv"), 1.0)?;
        median(&format!("{p} loss out"), q.packet_loss_fraction_send, of("loss send"), 0.01)?;
        median(&format!("{p} loss in"), q.packet_loss_fraction_recv, of("loss recv"), 0.01)
    };
    media("a", &q.audio_stats)?;
    media("v", &q.video_stats)
}

fn ms_now() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_millis() as u64
}

/// What is left of `full` once it has been cut down to size; `None` if nothing can be kept.
fn cut(mut full: CallTelemetry) -> (Option<CallTelemetry>, usize, bool) {
    let before = full.stats_sets.len();
    while full.encoded_len() > BLOB_MAX && !full.stats_sets.is_empty() {
        full.stats_sets.remove(0);
    }
    let cut = before - full.stats_sets.len();
    if full.encoded_len() <= BLOB_MAX {
        return (Some(full), cut, false);
    }
    full.direct_call_summary = None;
    full.group_call_summary = None;
    (Some(full), cut, true)
}

// ---------------------------------------------------------------- generating

fn figure() -> impl Strategy<Value = f64> {
    prop_oneof![
        2 => Just(0.0),
        6 => (1u32..200_000).prop_map(|n| n as f64 / 100.0),
        1 => (0u32..100).prop_map(|n| n as f64),
    ]
}
fn stream(kinds: Vec<K>, ssrcs: u32) -> impl Strategy<Value = Stream> {
    (
        (proptest::sample::select(kinds), 0..ssrcs, 0u8..100, figure(), figure(), figure()),
        (figure(), figure(), 0u32..10_000, figure(), figure(), figure()),
        (0u64..1000, 0u64..5, 0u32..4, 0u8..3),
        option::of(prop_oneof![
            Just("libvpx".to_string()),
            Just("h/w".to_string()),
            Just(String::new()),
            "[a-z]{1,12}",
        ]),
    )
        .prop_map(|(a, b, c, implementation)| {
            let bitrate = match a.2 {
                0 => F::Nan,
                1 => F::Inf,
                2 => F::NegInf,
                _ => F::Num(a.3 as f32 * 1000.0),
            };
            Stream {
                kind: a.0,
                ssrc: a.1 * 1000 + 1,
                bitrate,
                loss: (b.2 as f32) / 100.0,
                jitter: a.4,
                rtt: a.5,
                rate: b.0 as f32,
                delay: b.1,
                concealed: b.3 as f32 / 20.0,
                fec: c.0,
                flushes: c.1,
                arrival: b.4,
                freezes: c.2,
                codec: c.3,
                implementation,
            }
        })
}
fn route() -> impl Strategy<Value = Route> {
    (0u8..11, 0u8..11, prop::bool::weighted(0.3), prop::bool::weighted(0.2)).prop_map(
        |(adapter, under_vpn, local_relayed, remote_relayed)| Route {
            adapter,
            under_vpn,
            local_relayed,
            remote_relayed,
        },
    )
}
const ALL: [K; 4] = [K::ASend, K::ARecv, K::VSend, K::VRecv];
fn op(group: bool) -> BoxedStrategy<Op> {
    let direct = if group { 0 } else { 3 };
    let grp = if group { 4 } else { 0 };
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (2, Just(Op::Begin).boxed()),
        (5, Just(Op::End).boxed()),
        (1, Just(Op::System).boxed()),
        (
            3,
            (figure(), option::of(route()))
                .prop_map(|(rtt, route)| Op::Connection { rtt, route })
                .boxed(),
        ),
        (16, stream(ALL.to_vec(), 4).prop_map(Op::Stream).boxed()),
        (
            2,
            (route(), prop_oneof![3 => Just(0u8), 2 => 1u8..4])
                .prop_map(|(route, stay_ms)| Op::RouteChanged { route, stay_ms })
                .boxed(),
        ),
        (1, Just(Op::Pause).boxed()),
    ];
    if direct > 0 {
        v.push((1, Just(Op::IceUp).boxed()));
        v.push((1, Just(Op::IceDown).boxed()));
        v.push((3, (0u8..11).prop_map(Op::State).boxed()));
        v.push((1, Just(Op::Offer).boxed()));
        v.push((1, Just(Op::Answer).boxed()));
        v.push((1, Just(Op::Answered).boxed()));
        v.push((1, (0u8..5).prop_map(Op::Other).boxed()));
        v.push((
            1,
            prop_oneof![
                4 => (1u32..9).prop_map(|n| Op::Limits { limit_ms: n * 1000, period_ms: 1000 }),
                1 => (0u32..4000, 0u32..2000)
                    .prop_map(|(limit_ms, period_ms)| Op::Limits { limit_ms, period_ms }),
            ]
            .boxed(),
        ));
    }
    if grp > 0 {
        v.push((grp, (0u8..4).prop_map(Op::GroupState).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
fn big_op() -> BoxedStrategy<Op> {
    let some = |lo: u16, hi: u16, imp: usize| {
        (stream(ALL.to_vec(), 3), lo..hi, option::weighted(0.5, 0..=imp)).prop_map(
            move |(mut proto, n, len)| {
                if let Some(len) = len {
                    proto.implementation = Some("x".repeat(len));
                }
                proto.bitrate = F::Num(64000.0);
                Op::Many { proto, n }
            },
        )
    };
    prop_oneof![
        6 => some(1, 120, 40),
        2 => some(200, 520, 40),
        1 => some(480, 520, 260),
        3 => Just(Op::End),
        1 => Just(Op::Pause),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    group: bool,
    limit_ms: u32,
    period_ms: u32,
    ops: Vec<Op>,
    reason: u8,
    hash: Option<Vec<u8>>,
}
fn sets(limit_ms: u32, period_ms: u32) -> Option<usize> {
    (limit_ms > 0 && period_ms > 0 && limit_ms > period_ms)
        .then(|| (limit_ms / period_ms) as usize)
}
fn case(big: bool) -> impl Strategy<Value = Case> {
    let limits = prop_oneof![
        8 => (2u32..9, Just(1000u32)).prop_map(|(n, p)| (n * p, p)),
        2 => (1001u32..9000, 200u32..1000),
        1 => prop_oneof![Just((0, 5)), Just((5, 0)), Just((5, 5)), Just((5, 6)), Just((7, 6))],
    ];
    (prop::bool::weighted(0.3), limits).prop_flat_map(move |(group, (limit_ms, period_ms))| {
        let ops = if big { vec(big_op(), 1..14).boxed() } else { vec(op(group), 0..60).boxed() };
        (ops, any::<u8>(), option::of(vec(any::<u8>(), 0..6))).prop_map(
            move |(ops, reason, hash)| Case { group, limit_ms, period_ms, ops, reason, hash },
        )
    })
}

enum Real {
    Direct(DirectCallSummary),
    Group(GroupCallSummary),
}
impl Real {
    fn stats(&self, s: &StatsSnapshot) {
        match self {
            Real::Direct(d) => d.on_stats_snapshot_ready(s),
            Real::Group(g) => g.on_stats_snapshot_ready(s),
        }
    }
}

fn states() -> [ConnectionState; 11] {
    use ConnectionState::*;
    [
        NotYetStarted,
        Starting,
        IceGathering,
        ConnectingBeforeAccepted,
        ConnectingAfterAccepted,
        ConnectedBeforeAccepted,
        IceFailed,
        ConnectedAndAccepted,
        ReconnectingAfterAccepted,
        Terminating,
        Terminated,
    ]
}
fn reason(n: u8) -> (CallEndReason, bool) {
    use CallEndReason::*;
    match n % 12 {
        0 | 1 => (LocalHangup, true),
        2 | 3 => (RemoteHangup, true),
        4 => (AppDroppedCall, false),
        5 => (RemoteReCall, false),
        6 => (RemoteGlare, true),
        7 => (ConnectionFailure, true),
        8 => (InternalFailure, true),
        9 => (DeviceExplicitlyDisconnected, true),
        10 => (ServerExplicitlyDisconnected, true),
        _ => (Timeout, true),
    }
}

fn run(c: &Case, o: &mut Obs) -> Res {
    let (limit, period) =
        (Duration::from_millis(c.limit_ms as u64), Duration::from_millis(c.period_ms as u64));
    let before = ms_now();
    let made = if c.group {
        GroupCallSummary::new(limit, period).map(Real::Group)
    } else {
        DirectCallSummary::new(limit, period).map(Real::Direct)
    };
    let Some(max_sets) = sets(c.limit_ms, c.period_ms) else {
        ensure!(made.is_err(), "limits {limit:?}/{period:?} accepted");
        o.label("refused limits");
        return Ok(());
    };
    let real = made.map_err(|e| format!("limits {limit:?}/{period:?} refused: {e}"))?;
    let mut m = Model::new(max_sets);
    let event = |e| CallEvent::ConnectionObserverEvent(e, 1);
    let mut relay_window = 0u128;
    for op in &c.ops {
        match (op, &real) {
            (Op::Begin, r) => {
                r.stats(&StatsSnapshot::Begin);
                m.set();
            }
            (Op::End, r) => {
                r.stats(&StatsSnapshot::End);
                m.set();
                m.fresh = true;
            }
            (Op::System, r) => {
                r.stats(&StatsSnapshot::System(SystemStatsSnapshot { cpu_pct: 12.0 }));
                m.set();
            }
            (Op::Connection { rtt, route }, r) => {
                r.stats(&StatsSnapshot::Connection(ConnectionStatsSnapshot {
                    call_id: CallId::from(7u64),
                    timestamp_us: 5,
                    current_round_trip_time: *rtt,
                    available_outgoing_bitrate: 1.0,
                    requests_sent: 1,
                    responses_received: 1,
                    requests_received: 1,
                    responses_sent: 1,
                    network_route: route.map(Route::get),
                }));
                m.median("connection", *rtt);
                let set = m.set();
                set.rtt_stun.push(*rtt as f32);
                set.relayed = Some(route.is_some_and(|r| r.local_relayed || r.remote_relayed));
            }
            (Op::Stream(s), r) => {
                r.stats(&stream_report(s));
                m.stream(s);
            }
            (Op::Many { proto, n }, r) => {
                for i in 0..*n as u32 {
                    let mut s = proto.clone();
                    s.ssrc = proto.ssrc + i;
                    r.stats(&stream_report(&s));
                    m.stream(&s);
                }
            }
            (Op::Limits { limit_ms, period_ms }, Real::Direct(d)) => {
                let got = d.update_limits(
                    Duration::from_millis(*limit_ms as u64),
                    Duration::from_millis(*period_ms as u64),
                );
                match sets(*limit_ms, *period_ms) {
                    None => {
                        ensure!(got.is_err(), "limits {limit_ms}/{period_ms} accepted");
                        o.label("refused limits");
                    }
                    Some(n) => {
                        ensure!(got.is_ok(), "limits {limit_ms}/{period_ms} refused");
                        o.label_if(m.sets.len() > n, "limits drop sets");
                        let extra = m.sets.len().saturating_sub(n);
                        m.sets.drain(..extra);
                        m.max_sets = n;
                    }
                }
            }
            (Op::IceUp, Real::Direct(d)) => {
                d.on_call_event(&event(ConnectionObserverEvent::IceConnected));
                m.event(pb::Event::IceConnected);
            }
            (Op::IceDown, Real::Direct(d)) => {
                d.on_call_event(&event(ConnectionObserverEvent::IceDisconnected));
                m.event(pb::Event::IceDisconnected);
            }
            (Op::RouteChanged { route, stay_ms }, r) => {
                m.mobile |= is_mobile(route.adapter);
                match r {
                    Real::Direct(d) => {
                        d.on_call_event(&event(ConnectionObserverEvent::IceNetworkRouteChanged(
                            route.get(),
                        )));
                        m.event(pb::Event::IceNetworkRouteChanged);
                        m.switches += 1;
                        m.relay_now = route.local_relayed || route.remote_relayed;
                        m.relay_possible |= m.relay_now;
                    }
                    Real::Group(g) => g.on_ice_network_route_changed(route.get()),
                }
                if *stay_ms > 0 {
                    thread::sleep(Duration::from_millis(*stay_ms as u64));
                    if m.relay_now {
                        relay_window += *stay_ms as u128;
                    }
                }
            }
            (Op::State(n), Real::Direct(d)) => {
                let state = states()[*n as usize % 11];
                use ConnectionState::*;
                match state {
                    ConnectedBeforeAccepted => m.ice_connected = true,
                    ConnectedAndAccepted | ConnectingAfterAccepted => {
                        m.ice_connected = true;
                        m.connected = true;
                    }
                    ReconnectingAfterAccepted => m.reconnects += 1,
                    _ => {}
                }
                d.on_call_event(&event(ConnectionObserverEvent::StateChanged(state)));
            }
            (Op::Offer, Real::Direct(d)) => {
                d.on_call_event(&CallEvent::SendingOffer);
                m.offer = true;
            }
            (Op::Answer, Real::Direct(d)) => {
                d.on_call_event(&CallEvent::SendingAnswer);
                m.answer = true;
            }
            (Op::Answered, Real::Direct(d)) => {
                d.on_call_event(&CallEvent::ReceivedAnswer(signaling::ReceivedAnswer {
                    answer: signaling::Answer::new(vec![]).map_err(|e| e.to_string())?,
                    sender_device_id: 1,
                    sender_identity_key: vec![],
                    receiver_identity_key: vec![],
                }));
                m.answered = true;
            }
            (Op::Other(n), Real::Direct(d)) => d.on_call_event(&match n % 5 {
                0 => CallEvent::StartCall,
                1 => CallEvent::AcceptCall,
                2 => CallEvent::CallTimeout,
                3 => event(ConnectionObserverEvent::AudioLevels {
                    captured_level: 3,
                    received_level: 4,
                }),
                _ => CallEvent::Terminate,
            }),
            (Op::GroupState(n), Real::Group(g)) => {
                use group_call::ConnectionState::*;
                let (state, e) = match n % 4 {
                    0 => (NotConnected, pb::Event::GroupCallDisconnected),
                    1 => (Connecting, pb::Event::GroupCallConnecting),
                    2 => (Connected, pb::Event::GroupCallConnected),
                    _ => (Reconnecting, pb::Event::GroupCallReconnecting),
                };
                m.connected |= state == Connected;
                g.on_connection_state_changed(state);
                m.event(e);
            }
            (Op::Pause, _) => thread::sleep(Duration::from_millis(1)),
            _ => {}
        }
    }
    // Time on a relay of which at least a millisecond is certain counts in so short a call.
    m.relay_certain = relay_window > 0;
    let (why, survey_reason) = reason(c.reason);
    let why_text = why.to_string();
    let last_op = ms_now();
    let sum = match &real {
        Real::Direct(d) => d.build_call_summary(c.hash.clone(), why),
        Real::Group(g) => g.build_call_summary(why),
    };
    let after = ms_now();

    // The summary itself.
    ensure_eq!(sum.call_id_hash, if c.group { None } else { c.hash.clone() });
    ensure_eq!(sum.call_end_reason_text, why_text);
    let (start, end) = (u64::from(sum.start_time), u64::from(sum.end_time));
    ensure!(
        before <= start && start <= end && end <= after,
        "a call from {start} to {end} within {before}..{after}"
    );
    if !m.connected {
        ensure!(start == end, "never connected, but it lasted {} ms", end - start);
    } else {
        ensure!(end >= last_op, "ended at {end}, before the last thing that happened: {last_op}");
    }
    // No participant ever shows up in these group calls.
    ensure_eq!(sum.is_survey_candidate, !c.group && m.connected && survey_reason);
    medians(&m, &sum)?;

    // The record for the service.
    let (want, cut_sets, cut_summary) = cut(m.telemetry(c.group));
    let want = want.unwrap();
    o.label_if(cut_sets > 0, "sets dropped to fit");
    o.label_if(cut_summary, "summary dropped to fit");
    o.label_if(m.sets.len() == m.max_sets, "all sets in use");
    o.label_if(m.streams.values().any(|s| s.len() == STREAMS_MAX), "as many streams as kept");
    o.label_if(m.relay_certain, "relayed");
    o.label_if(c.group, "group call");
    o.nontrivial_if(!m.sets.is_empty() && !m.streams.is_empty());
    let Some(blob) = &sum.raw_stats else { fail!("nothing to hand over") };
    ensure!(blob.len() <= BLOB_MAX, "{} bytes handed over", blob.len());
    let got = CallTelemetry::decode(blob.as_slice()).map_err(|e| format!("undecodable: {e}"))?;
    ensure_eq!(got.version, 1);
    ensure!(before <= got.start_time && got.start_time <= got.end_time && got.end_time <= after);
    ensure_eq!(got.connect_time.is_some(), m.connected);
    if let Some(t) = got.connect_time {
        ensure!(start == t, "reported to start at {start}, connected at {t}");
        ensure!(got.start_time <= t && t <= got.end_time);
    } else {
        ensure_eq!(start, got.start_time);
    }
    if m.connected {
        ensure_eq!(end, got.end_time);
    }
    ensure_eq!(got.cellular, Some(m.mobile));
    ensure_eq!(got.group_call_summary.is_some(), want.group_call_summary.is_some());
    ensure_eq!(got.direct_call_summary.is_some(), want.direct_call_summary.is_some());
    ensure!(
        got.stats_sets.len() == want.stats_sets.len(),
        "{} sets kept, expected {} of {}",
        got.stats_sets.len(),
        want.stats_sets.len(),
        m.sets.len()
    );
    let mut last = before;
    for (g, w) in got.stats_sets.iter().zip(&want.stats_sets) {
        same_set(g, w)?;
        let t = g.timestamp.unwrap_or(0);
        ensure!(last <= t && t <= after, "a set made at {t}, after one made at {last}");
        last = t;
    }
    if let (Some(g), Some(w)) = (&got.group_call_summary, &want.group_call_summary) {
        same_summaries(
            g.stream_summaries.as_ref().unwrap(),
            w.stream_summaries.as_ref().unwrap(),
        )?;
    }
    if let (Some(g), Some(w)) = (&got.direct_call_summary, &want.direct_call_summary) {
        same_summaries(
            g.stream_summaries.as_ref().unwrap(),
            w.stream_summaries.as_ref().unwrap(),
        )?;
        ensure_eq!(g.ice_candidate_switch_count, w.ice_candidate_switch_count);
        ensure_eq!(g.ice_reconnect_count, w.ice_reconnect_count);
        if m.relay_certain || !m.relay_possible {
            ensure!(
                g.relayed == Some(m.relay_certain),
                "relayed: {:?} after {relay_window} ms on a relay",
                g.relayed
            );
        }
        for (g, w, what) in [
            (g.offer_sent_time, w.offer_sent_time, "offer sent"),
            (g.answer_sent_time, w.answer_sent_time, "answer sent"),
            (g.answer_received_time, w.answer_received_time, "answer received"),
            (g.ice_connected_time, w.ice_connected_time, "connected"),
        ] {
            ensure!(g.is_some() == w.is_some(), "{what}: {g:?}");
            ensure!(
                g.is_none_or(|t| got.start_time <= t && t <= got.end_time),
                "{what} at {g:?}, outside the call"
            );
        }
        if let (Some(a), Some(b)) = (g.ice_connected_time, got.connect_time) {
            ensure!(a <= b, "accepted at {b}, before a connection at {a}");
        }
    }

    // What the user is shown is what is handed over.
    let Some(text) = &sum.raw_stats_text else { fail!("nothing to show") };
    let same = serde_json::to_string(&got).map_err(|e| e.to_string())?;
    ensure_eq!(text.as_str(), same.as_str());
    let shown: serde_json::Value =
        serde_json::from_str(&sum.to_string()).map_err(|e| format!("shown as no JSON: {e}"))?;
    let shown = &shown["CallSummary"];
    ensure_eq!(shown["start_time"].as_u64(), Some(start));
    ensure_eq!(shown["end_time"].as_u64(), Some(end));
    ensure_eq!(shown["is_survey_candidate"].as_bool(), Some(sum.is_survey_candidate));
    ensure_eq!(shown["call_end_reason_text"].as_str(), Some(why_text.as_str()));
    ensure_eq!(
        shown["call_id_hash"].as_str().map(str::to_string),
        sum.call_id_hash.as_ref().map(hex::encode)
    );
    ensure_eq!(shown["raw_stats"].as_u64(), Some(blob.len() as u64));
    ensure_eq!(
        shown["raw_stats_text"],
        serde_json::from_str::<serde_json::Value>(text).map_err(|e| e.to_string())?
    );
    for (m, q) in [
        ("audio_stats", &sum.quality_stats.audio_stats),
        ("video_stats", &sum.quality_stats.video_stats),
    ] {
        let s = &shown["quality_stats"][m];
        for (name, v) in [
            ("rtt_median", q.rtt_median),
            ("jitter_median_send", q.jitter_median_send),
            ("jitter_median_recv", q.jitter_median_recv),
            ("packet_loss_fraction_send", q.packet_loss_fraction_send),
            ("packet_loss_fraction_recv", q.packet_loss_fraction_recv),
        ] {
            ensure!(s[name].as_f64().map(|x| x as f32) == v, "{m} {name} shown as {}", s[name]);
        }
    }
    Ok(())
}

/// First times stay what they were, however often the same thing happens again.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    what: Vec<u8>,
}
fn first_times(c: &Again, o: &mut Obs) -> Res {
    let d = DirectCallSummary::new(Duration::from_secs(3), Duration::from_secs(1))
        .map_err(|e| e.to_string())?;
    let mut first: BTreeMap<u8, (u64, u64)> = BTreeMap::new();
    let event = |e| CallEvent::ConnectionObserverEvent(ConnectionObserverEvent::StateChanged(e), 1);
    for w in &c.what {
        let t0 = ms_now();
        let w = w % 5;
        match w {
            0 => d.on_call_event(&CallEvent::SendingOffer),
            1 => d.on_call_event(&CallEvent::SendingAnswer),
            2 => d.on_call_event(&CallEvent::ReceivedAnswer(signaling::ReceivedAnswer {
                answer: signaling::Answer::new(vec![]).map_err(|e| e.to_string())?,
                sender_device_id: 1,
                sender_identity_key: vec![],
                receiver_identity_key: vec![],
            })),
            3 => d.on_call_event(&event(ConnectionState::ConnectedBeforeAccepted)),
            _ => d.on_call_event(&event(ConnectionState::ConnectedAndAccepted)),
        }
        let t1 = ms_now();
        let again = first.contains_key(&w);
        o.nontrivial_if(again);
        first.entry(w).or_insert((t0, t1));
        if w == 4 {
            first.entry(3).or_insert((t0, t1));
        }
        thread::sleep(Duration::from_millis(2));
    }
    let sum = d.build_call_summary(None, CallEndReason::LocalHangup);
    let got = CallTelemetry::decode(sum.raw_stats.unwrap_or_default().as_slice())
        .map_err(|e| e.to_string())?;
    let direct = got.direct_call_summary.unwrap_or_default();
    for (w, t) in [
        (0, direct.offer_sent_time),
        (1, direct.answer_sent_time),
        (2, direct.answer_received_time),
        (3, direct.ice_connected_time),
        (4, got.connect_time),
    ] {
        match (first.get(&w), t) {
            (None, None) => {}
            (Some((a, b)), Some(t)) => {
                ensure!(*a <= t && t <= *b, "event {w} first at {a}..{b}, kept as {t}")
            }
            (f, t) => fail!("event {w} first at {f:?}, kept as {t:?}"),
        }
    }
    Ok(())
}

pub fn c14(r: &mut Runner) {
    r.facet(
        "history",
        "at least one set of figures and one stream summed up",
        par(24_000),
        || case(false),
        run,
    );
    r.facet(
        "size",
        "at least one set of figures and one stream summed up",
        par(2_400),
        || case(true),
        run,
    );
    r.facet(
        "first-times",
        "the same thing happens more than once",
        par(400),
        || vec(0u8..5, 1..7).prop_map(|what| Again { what }),
        first_times,
    );
}
