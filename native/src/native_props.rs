//! N07: the desktop app is told what the engine and the calls report, as it
//! is, and connections are made as its user wants them.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex},
    time::Duration,
};

use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par};
use proptest::{collection::vec, option, prelude::*};
use ringrtc::{
    common::{
        ApplicationEvent, CallConfig, CallDirection, CallEndReason, CallId, CallMediaType, DeviceId,
    },
    core::{
        call::Call,
        call_manager::CallManager,
        call_summary::CallSummary,
        connection::ConnectionType,
        group_call::{
            ConnectionState, JoinState, Reaction, RemoteDevicesChangedReason, RingId, RingUpdate,
            SignalingMessageUrgency, SpeechEvent,
        },
        platform::Platform,
        signaling,
    },
    lite::{
        http,
        sfu::{Delegate as _, PeekDeviceInfo, PeekInfo, UserId},
    },
    native::{
        CallState, CallStateHandler, GroupUpdate, GroupUpdateHandler, NativeCallContext,
        NativePlatform, RejectReason, SignalingSender,
    },
    protobuf,
    webrtc::{
        media::{VideoFrame, VideoSink},
        peer_connection::ReceivedAudioLevel,
        peer_connection_factory::{IceServer, PeerConnectionFactory},
        peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol},
    },
};
use serde::{Deserialize, Serialize};

use crate::fake::{self, IceServerRec, Kind, at, new_local_world};

type Said = Arc<Mutex<Vec<String>>>;
#[derive(Clone, Default)]
struct App {
    said: Said,
    fails: Arc<Mutex<bool>>,
}
impl App {
    fn say(&self, s: String) -> anyhow::Result<()> {
        self.said.lock().unwrap().push(s);
        if *self.fails.lock().unwrap() { Err(anyhow::anyhow!("the app can't")) } else { Ok(()) }
    }
}
fn media(m: CallMediaType) -> &'static str {
    match m {
        CallMediaType::Audio => "audio",
        CallMediaType::Video => "video",
    }
}
fn message(m: &signaling::Message) -> String {
    use signaling::{Hangup, Message};
    match m {
        Message::Offer(o) => format!("offer {} {:?}", media(o.call_media_type), o.opaque),
        Message::Answer(a) => format!("answer {:?}", a.opaque),
        Message::Ice(i) => format!("ice {:?}", i.candidates.iter().map(|c| &c.opaque).collect::<Vec<_>>()),
        Message::Hangup(h) => match h {
            Hangup::Normal => "hangup".into(),
            Hangup::AcceptedOnAnotherDevice(d) => format!("hangup accepted {d}"),
            Hangup::DeclinedOnAnotherDevice(d) => format!("hangup declined {d}"),
            Hangup::BusyOnAnotherDevice(d) => format!("hangup busy {d}"),
            Hangup::NeedPermission(d) => format!("hangup permission {d:?}"),
        },
        Message::Busy => "busy".into(),
    }
}
fn urgent(u: SignalingMessageUrgency) -> bool {
    u == SignalingMessageUrgency::HandleImmediately
}
impl SignalingSender for App {
    fn send_signaling(&self, to: &str, call: CallId, device: Option<DeviceId>, m: signaling::Message) -> anyhow::Result<()> {
        self.say(format!("send {to:?} {} {device:?} {}", call.as_u64(), message(&m)))
    }
    fn send_call_message(&self, to: UserId, m: Vec<u8>, u: SignalingMessageUrgency) -> anyhow::Result<()> {
        self.say(format!("message {to:?} {m:?} {}", urgent(u)))
    }
    fn send_call_message_to_group(&self, group: Vec<u8>, m: Vec<u8>, u: SignalingMessageUrgency, to: HashSet<UserId>) -> anyhow::Result<()> {
        self.say(format!("group {group:?} {m:?} {} {:?}", urgent(u), to.into_iter().collect::<BTreeSet<_>>()))
    }
    fn send_call_message_to_adhoc_group(&self, m: Vec<u8>, u: SignalingMessageUrgency, until: u64, to: HashMap<UserId, Vec<u8>>) -> anyhow::Result<()> {
        self.say(format!("adhoc {m:?} {} {until} {:?}", urgent(u), to.into_iter().collect::<BTreeMap<_, _>>()))
    }
}
impl CallStateHandler for App {
    fn handle_call_state(&self, peer: &str, call: CallId, s: CallState) -> anyhow::Result<()> {
        let s = match s {
            CallState::Incoming(m) => format!("incoming {}", media(m)),
            CallState::Outgoing(m) => format!("outgoing {}", media(m)),
            CallState::Ringing => "ringing".into(),
            CallState::Connected => "connected".into(),
            CallState::Connecting => "connecting".into(),
            CallState::Ended(why, summary) => format!("ended {why:?} {}", summary.call_end_reason_text),
            CallState::Rejected(RejectReason::ReceivedOfferExpired { age }) => format!("rejected expired {age:?}"),
            CallState::Rejected(why) => format!("rejected {why}"),
            CallState::Concluded => "concluded".into(),
        };
        self.say(format!("state {peer:?} {} {s}", call.as_u64()))
    }
    fn handle_remote_audio_state(&self, peer: &str, on: bool) -> anyhow::Result<()> {
        self.say(format!("audio {peer:?} {on}"))
    }
    fn handle_remote_video_state(&self, peer: &str, on: bool) -> anyhow::Result<()> {
        self.say(format!("video {peer:?} {on}"))
    }
    fn handle_remote_sharing_screen(&self, peer: &str, on: bool) -> anyhow::Result<()> {
        self.say(format!("sharing {peer:?} {on}"))
    }
    fn handle_network_route(&self, peer: &str, r: NetworkRoute) -> anyhow::Result<()> {
        self.say(format!("route {peer:?} {r:?}"))
    }
    fn handle_audio_levels(&self, peer: &str, captured: u16, received: u16) -> anyhow::Result<()> {
        self.say(format!("levels {peer:?} {captured} {received}"))
    }
    fn handle_low_bandwidth_for_video(&self, peer: &str, recovered: bool) -> anyhow::Result<()> {
        self.say(format!("bandwidth {peer:?} {recovered}"))
    }
}
impl GroupUpdateHandler for App {
    fn handle_group_update(&self, u: GroupUpdate) -> anyhow::Result<()> {
        use GroupUpdate as U;
        self.say(match u {
            U::RequestMembershipProof(c) => format!("proof {c}"),
            U::RequestGroupMembers(c) => format!("members {c}"),
            U::ConnectionStateChanged(c, s) => format!("connection {c} {s:?}"),
            U::JoinStateChanged(c, s) => format!("join {c} {s:?}"),
            U::RemoteDeviceStatesChanged(c, d) => format!("devices {c} {d:?}"),
            U::PeekChanged { client_id, peek_info } => format!("peek {client_id} {peek_info:?}"),
            U::PeekResult { request_id, peek_result } => format!("peeked {request_id} {peek_result:?}"),
            U::Ended(c, why, s) => format!("group ended {c} {why:?} {}", s.call_end_reason_text),
            U::Ring { group_id, ring_id, sender_id, update } => format!("ring {group_id:?} {ring_id} {sender_id:?} {update:?}"),
            U::NetworkRouteChanged(c, r) => format!("group route {c} {r:?}"),
            U::AudioLevels(c, l, r) => format!("group levels {c} {l} {:?}", r.iter().map(|r| (r.demux_id, r.level)).collect::<Vec<_>>()),
            U::LowBandwidthForVideo { group_id, recovered } => format!("group bandwidth {group_id} {recovered}"),
            U::Reactions(c, r) => format!("reactions {c} {:?}", r.iter().map(|r| (r.demux_id, &r.value)).collect::<Vec<_>>()),
            U::RaisedHands(c, h) => format!("hands {c} {h:?}"),
            U::RtcStatsReportComplete { report_json } => format!("report {report_json}"),
            U::SpeechEvent(c, e) => format!("speech {c} {e:?}"),
            U::RemoteMute { client_id, mute_source } => format!("mute {client_id} {mute_source}"),
            U::ObservedRemoteMute { client_id, mute_source, mute_target } => format!("muted {client_id} {mute_source} {mute_target}"),
        })
    }
}

type Bytes = Vec<u8>;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Say {
    Start { incoming: bool, video: bool },
    Ended(u8, String),
    Event(u8),
    Route(u8, u8, bool, u8, bool),
    Levels(u16, u16),
    Bandwidth(bool),
    Expired(u64),
    Concluded,
    Offer(bool, u64),
    Answer(u32, u64),
    Ice(Option<u32>, Vec<Bytes>),
    Hangup(u8, u32),
    Busy,
    Message(Bytes, Bytes, bool),
    Group(Bytes, Bytes, bool, Vec<Bytes>),
    Adhoc(Bytes, bool, u64, Vec<(Bytes, Bytes)>),
    Proof,
    Members,
    Connection(u8),
    Join(u8, Option<i64>, u32),
    GroupRoute(u8, u8, bool, u8, bool),
    Speech(bool),
    GroupLevels(u16, Vec<(u32, u16)>),
    GroupBandwidth(bool),
    Reactions(Vec<(u32, String)>),
    Hands(Vec<u32>),
    Devices(u8),
    Peek(Vec<(u32, Option<Bytes>)>, Vec<u32>, Option<String>, Option<u32>),
    PeekResult(u32, Option<u16>, Vec<(u32, Option<Bytes>)>),
    MuteRequest(u32),
    ObservedMute(u32, u32),
    Report(String),
    GroupEnded(u8, String),
    Ring(Bytes, i64, Bytes, u8),
    Compare(String),
}
fn say() -> impl Strategy<Value = Say> {
    let b = || vec(any::<u8>(), 0..5);
    let peeked = || vec((any::<u32>(), option::of(b())), 0..4);
    let text = || "[a-zA-Z0-9 ]{0,8}";
    prop_oneof![
        prop_oneof![
            any::<(bool, bool)>().prop_map(|(incoming, video)| Say::Start { incoming, video }),
            (any::<u8>(), text()).prop_map(|(w, t)| Say::Ended(w, t)),
            any::<u8>().prop_map(Say::Event),
            any::<u8>().prop_map(Say::Event),
            any::<u8>().prop_map(Say::Event),
            any::<(u8, u8, bool, u8, bool)>().prop_map(|(a, b, c, d, e)| Say::Route(a, b, c, d, e)),
            any::<(u16, u16)>().prop_map(|(a, b)| Say::Levels(a, b)),
            any::<bool>().prop_map(Say::Bandwidth),
            any::<u64>().prop_map(Say::Expired),
            Just(Say::Concluded),
        ],
        prop_oneof![
            any::<(bool, u64)>().prop_map(|(v, n)| Say::Offer(v, n)),
            any::<(u32, u64)>().prop_map(|(d, n)| Say::Answer(d, n)),
            (any::<Option<u32>>(), vec(b(), 0..4)).prop_map(|(d, c)| Say::Ice(d, c)),
            any::<(u8, u32)>().prop_map(|(h, d)| Say::Hangup(h, d)),
            Just(Say::Busy),
            (b(), b(), any::<bool>()).prop_map(|(t, m, u)| Say::Message(t, m, u)),
            (b(), b(), any::<bool>(), vec(b(), 0..4)).prop_map(|(g, m, u, t)| Say::Group(g, m, u, t)),
            (b(), any::<bool>(), any::<u64>(), vec((b(), b()), 0..4)).prop_map(|(m, u, e, t)| Say::Adhoc(m, u, e, t)),
        ],
        prop_oneof![
            Just(Say::Proof),
            Just(Say::Members),
            any::<u8>().prop_map(Say::Connection),
            any::<(u8, Option<i64>, u32)>().prop_map(|(s, r, d)| Say::Join(s, r, d)),
            any::<(u8, u8, bool, u8, bool)>().prop_map(|(a, b, c, d, e)| Say::GroupRoute(a, b, c, d, e)),
            any::<bool>().prop_map(Say::Speech),
            (any::<u16>(), vec(any::<(u32, u16)>(), 0..4)).prop_map(|(l, r)| Say::GroupLevels(l, r)),
            any::<bool>().prop_map(Say::GroupBandwidth),
            vec((any::<u32>(), text()), 0..4).prop_map(Say::Reactions),
        ],
        prop_oneof![
            vec(any::<u32>(), 0..4).prop_map(Say::Hands),
            any::<u8>().prop_map(Say::Devices),
            (peeked(), vec(any::<u32>(), 0..3), option::of(text()), any::<Option<u32>>()).prop_map(|(d, p, e, m)| Say::Peek(d, p, e, m)),
            (any::<u32>(), any::<Option<u16>>(), peeked()).prop_map(|(r, s, d)| Say::PeekResult(r, s, d)),
            any::<u32>().prop_map(Say::MuteRequest),
            any::<(u32, u32)>().prop_map(|(a, b)| Say::ObservedMute(a, b)),
            text().prop_map(Say::Report),
            (any::<u8>(), text()).prop_map(|(w, t)| Say::GroupEnded(w, t)),
            (b(), any::<i64>(), b(), any::<u8>()).prop_map(|(g, r, s, u)| Say::Ring(g, r, s, u)),
            "[ab]{1,2}".prop_map(Say::Compare),
        ],
    ]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    says: Vec<(Say, String, u64, u32, bool)>,
    assume: bool,
}

const WHY: [CallEndReason; 21] = [
    CallEndReason::LocalHangup,
    CallEndReason::RemoteHangup,
    CallEndReason::RemoteHangupNeedPermission,
    CallEndReason::RemoteHangupAccepted,
    CallEndReason::RemoteHangupDeclined,
    CallEndReason::RemoteHangupBusy,
    CallEndReason::RemoteBusy,
    CallEndReason::RemoteGlare,
    CallEndReason::RemoteReCall,
    CallEndReason::Timeout,
    CallEndReason::InternalFailure,
    CallEndReason::SignalingFailure,
    CallEndReason::ConnectionFailure,
    CallEndReason::AppDroppedCall,
    CallEndReason::DeviceExplicitlyDisconnected,
    CallEndReason::ServerExplicitlyDisconnected,
    CallEndReason::DeniedRequestToJoinCall,
    CallEndReason::RemovedFromCall,
    CallEndReason::CallManagerIsBusy,
    CallEndReason::SfuClientFailedToJoin,
    CallEndReason::HasMaxDevices,
];
fn why(n: u8) -> CallEndReason {
    WHY[n as usize % WHY.len()]
}
fn summary(text: &str) -> CallSummary {
    CallSummary { call_end_reason_text: text.into(), ..Default::default() }
}
/// What the app is told: the state of the call, or what the peer does.
const EVENTS: [(ApplicationEvent, &str); 15] = [
    (ApplicationEvent::LocalRinging, "ringing"),
    (ApplicationEvent::RemoteRinging, "ringing"),
    (ApplicationEvent::LocalAccepted, "connected"),
    (ApplicationEvent::RemoteAccepted, "connected"),
    (ApplicationEvent::Reconnected, "connected"),
    (ApplicationEvent::Reconnecting, "connecting"),
    (ApplicationEvent::GlareHandlingFailure, "rejected GlareHandlingFailure"),
    (ApplicationEvent::ReceivedOfferWhileActive, "rejected ReceivedOfferWhileActive"),
    (ApplicationEvent::ReceivedOfferWithGlare, "rejected ReceivedOfferWithGlare"),
    (ApplicationEvent::RemoteAudioEnable, "!audio true"),
    (ApplicationEvent::RemoteAudioDisable, "!audio false"),
    (ApplicationEvent::RemoteVideoEnable, "!video true"),
    (ApplicationEvent::RemoteVideoDisable, "!video false"),
    (ApplicationEvent::RemoteSharingScreenEnable, "!sharing true"),
    (ApplicationEvent::RemoteSharingScreenDisable, "!sharing false"),
];
fn route(a: u8, b: u8, c: bool, d: u8, e: bool) -> NetworkRoute {
    let kind = |n: u8| {
        [NetworkAdapterType::Unknown, NetworkAdapterType::Ethernet, NetworkAdapterType::Wifi, NetworkAdapterType::Cellular, NetworkAdapterType::Vpn][n as usize % 5]
    };
    NetworkRoute {
        local_adapter_type: kind(a),
        local_adapter_type_under_vpn: kind(b),
        local_relayed: c,
        local_relay_protocol: [TransportProtocol::Udp, TransportProtocol::Tcp, TransportProtocol::Tls, TransportProtocol::Unknown][d as usize % 4],
        remote_relayed: e,
    }
}
fn urgency(u: bool) -> SignalingMessageUrgency {
    if u { SignalingMessageUrgency::HandleImmediately } else { SignalingMessageUrgency::Droppable }
}
fn peek_info(d: &[(u32, Option<Bytes>)], p: &[u32], era: Option<String>, max: Option<u32>) -> PeekInfo {
    PeekInfo {
        devices: d.iter().map(|(i, u)| PeekDeviceInfo { demux_id: *i, user_id: u.clone() }).collect(),
        pending_devices: p.iter().map(|i| PeekDeviceInfo { demux_id: *i, user_id: None }).collect(),
        creator: d.iter().find_map(|d| d.1.clone()),
        era_id: era,
        max_devices: max,
        call_link_state: None,
    }
}
fn offer(n: u64) -> Bytes {
    use prost::Message as _;
    let v4 = protobuf::signaling::ConnectionParametersV4 {
        ice_ufrag: Some(format!("ufrag{n}")),
        ice_pwd: Some(format!("pwd{n}")),
        public_key: Some(vec![n as u8; 32]),
        ..Default::default()
    };
    protobuf::signaling::Offer { v4: Some(v4) }.encode_to_vec()
}
fn answer(n: u64) -> Bytes {
    use prost::Message as _;
    let v4 = protobuf::signaling::ConnectionParametersV4 { ice_ufrag: Some(format!("ufrag{n}")), ..Default::default() };
    protobuf::signaling::Answer { v4: Some(v4) }.encode_to_vec()
}
fn platform(app: &App, pcf: PeerConnectionFactory, assume: bool) -> NativePlatform {
    NativePlatform::new(pcf, Box::new(app.clone()), assume, Box::new(app.clone()), Box::new(app.clone()))
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let w = new_local_world();
    let pcf = PeerConnectionFactory::new(&Default::default(), false, "", None).map_err(|e| e.to_string())?;
    let app = App::default();
    let p = platform(&app, pcf, c.assume);
    ensure_eq!(p.assume_messages_sent(), c.assume);
    for (s, peer, id, client, fails) in &c.says {
        *app.fails.lock().unwrap() = *fails;
        let (peer, call, cl) = (peer.clone(), CallId::new(*id), *client);
        // What is done, and what the app has to be told.
        let told = |r: anyhow::Result<()>| Some(r.is_err());
        let state = |s: &str| format!("state {peer:?} {id} {s}");
        let send = |d: Option<u32>, s: String| format!("send {peer:?} {id} {d:?} {s}");
        let (r, want) = match s {
            Say::Start { incoming, video } => {
                let d = if *incoming { CallDirection::Incoming } else { CallDirection::Outgoing };
                let m = if *video { CallMediaType::Video } else { CallMediaType::Audio };
                let text = format!("{} {}", if *incoming { "incoming" } else { "outgoing" }, if *video { "video" } else { "audio" });
                (told(p.on_start_call(&peer, call, d, m)), state(&text))
            }
            Say::Ended(n, t) => (told(p.on_call_ended(&peer, call, why(*n), summary(t))), state(&format!("ended {:?} {t}", why(*n)))),
            Say::Event(n) => {
                let (e, text) = EVENTS[*n as usize % EVENTS.len()];
                let want = match text.strip_prefix('!') {
                    Some(t) => {
                        let (what, on) = t.split_once(' ').unwrap();
                        format!("{what} {peer:?} {on}")
                    }
                    None => state(text),
                };
                (told(p.on_event(&peer, call, e)), want)
            }
            Say::Route(a, b, x, d, e) => {
                let r = route(*a, *b, *x, *d, *e);
                (told(p.on_network_route_changed(&peer, r)), format!("route {peer:?} {r:?}"))
            }
            Say::Levels(a, b) => (told(p.on_audio_levels(&peer, *a, *b)), format!("levels {peer:?} {a} {b}")),
            Say::Bandwidth(b) => (told(p.on_low_bandwidth_for_video(&peer, *b)), format!("bandwidth {peer:?} {b}")),
            Say::Expired(ms) => {
                let age = Duration::from_millis(*ms);
                (told(p.on_offer_expired(&peer, call, age)), state(&format!("rejected expired {age:?}")))
            }
            Say::Concluded => (told(p.on_call_concluded(&peer, call)), state("concluded")),
            Say::Offer(v, n) => {
                let m = if *v { CallMediaType::Video } else { CallMediaType::Audio };
                let offer_ = signaling::Offer::new(m, offer(*n)).map_err(|e| e.to_string())?;
                (told(p.on_send_offer(&peer, call, offer_)), send(None, format!("offer {} {:?}", media(m), offer(*n))))
            }
            Say::Answer(d, n) => {
                let a = signaling::Answer::new(answer(*n)).map_err(|e| e.to_string())?;
                let a = signaling::SendAnswer { answer: a, receiver_device_id: *d };
                (told(p.on_send_answer(&peer, call, a)), send(Some(*d), format!("answer {:?}", answer(*n))))
            }
            Say::Ice(d, cands) => {
                let ice = signaling::Ice { candidates: cands.iter().map(|c| signaling::IceCandidate::new(c.clone())).collect() };
                let i = signaling::SendIce { ice, receiver_device_id: *d };
                (told(p.on_send_ice(&peer, call, i)), send(*d, format!("ice {cands:?}")))
            }
            Say::Hangup(h, d) => {
                use signaling::Hangup as H;
                let (h, text) = match h % 6 {
                    0 => (H::Normal, "hangup".to_string()),
                    1 => (H::AcceptedOnAnotherDevice(*d), format!("hangup accepted {d}")),
                    2 => (H::DeclinedOnAnotherDevice(*d), format!("hangup declined {d}")),
                    3 => (H::BusyOnAnotherDevice(*d), format!("hangup busy {d}")),
                    4 => (H::NeedPermission(Some(*d)), format!("hangup permission Some({d})")),
                    _ => (H::NeedPermission(None), "hangup permission None".into()),
                };
                (told(p.on_send_hangup(&peer, call, signaling::SendHangup { hangup: h })), send(None, text))
            }
            Say::Busy => (told(p.on_send_busy(&peer, call)), send(None, "busy".into())),
            Say::Message(to, m, u) => (told(p.send_call_message(to.clone(), m.clone(), urgency(*u))), format!("message {to:?} {m:?} {u}")),
            Say::Group(g, m, u, to) => {
                let to: BTreeSet<Bytes> = to.iter().cloned().collect();
                (
                    told(p.send_call_message_to_group(g.clone(), m.clone(), urgency(*u), to.iter().cloned().collect())),
                    format!("group {g:?} {m:?} {u} {to:?}"),
                )
            }
            Say::Adhoc(m, u, until, to) => {
                let to: BTreeMap<Bytes, Bytes> = to.iter().cloned().collect();
                (
                    told(p.send_call_message_to_adhoc_group(m.clone(), urgency(*u), *until, to.clone().into_iter().collect())),
                    format!("adhoc {m:?} {u} {until} {to:?}"),
                )
            }
            Say::Proof => {
                p.request_membership_proof(cl);
                (None, format!("proof {cl}"))
            }
            Say::Members => {
                p.request_group_members(cl);
                (None, format!("members {cl}"))
            }
            Say::Connection(n) => {
                let s = [ConnectionState::NotConnected, ConnectionState::Connecting, ConnectionState::Connected, ConnectionState::Reconnecting][*n as usize % 4];
                p.handle_connection_state_changed(cl, s);
                (None, format!("connection {cl} {s:?}"))
            }
            Say::Join(n, ring, d) => {
                let s = match n % 4 {
                    0 => JoinState::NotJoined(ring.map(RingId::from)),
                    1 => JoinState::Joining,
                    2 => JoinState::Pending(*d),
                    _ => JoinState::Joined(*d),
                };
                p.handle_join_state_changed(cl, s);
                (None, format!("join {cl} {s:?}"))
            }
            Say::GroupRoute(a, b, x, d, e) => {
                let r = route(*a, *b, *x, *d, *e);
                p.handle_network_route_changed(cl, r);
                (None, format!("group route {cl} {r:?}"))
            }
            Say::Speech(b) => {
                let e = if *b { SpeechEvent::LowerHandSuggestion } else { SpeechEvent::StoppedSpeaking };
                p.handle_speaking_notification(cl, e);
                (None, format!("speech {cl} {e:?}"))
            }
            Say::GroupLevels(l, r) => {
                p.handle_audio_levels(cl, *l, r.iter().map(|&(demux_id, level)| ReceivedAudioLevel { demux_id, level }).collect());
                (None, format!("group levels {cl} {l} {r:?}"))
            }
            Say::GroupBandwidth(b) => {
                Platform::handle_low_bandwidth_for_video(&p, cl, *b);
                (None, format!("group bandwidth {cl} {b}"))
            }
            Say::Reactions(r) => {
                p.handle_reactions(cl, r.iter().map(|(demux_id, v)| Reaction { demux_id: *demux_id, value: v.clone() }).collect());
                (None, format!("reactions {cl} {r:?}"))
            }
            Say::Hands(h) => {
                p.handle_raised_hands(cl, h.clone());
                (None, format!("hands {cl} {h:?}"))
            }
            Say::Devices(n) => {
                let r = if n % 2 == 0 { RemoteDevicesChangedReason::DemuxIdsChanged } else { RemoteDevicesChangedReason::ForwardedVideosChanged };
                p.handle_remote_devices_changed(cl, &[], r);
                (None, format!("devices {cl} []"))
            }
            Say::Peek(d, q, era, max) => {
                let i = peek_info(d, q, era.clone(), *max);
                p.handle_peek_changed(cl, &i, &Default::default());
                (None, format!("peek {cl} {i:?}"))
            }
            Say::PeekResult(r, status, d) => {
                let res = match status {
                    Some(s) => Err(http::ResponseStatus::from(*s)),
                    None => Ok(peek_info(d, &[], None, None)),
                };
                let want = format!("peeked {r} {res:?}");
                p.handle_peek_result(*r, res);
                (None, want)
            }
            Say::MuteRequest(m) => {
                p.handle_remote_mute_request(cl, *m);
                (None, format!("mute {cl} {m}"))
            }
            Say::ObservedMute(a, b) => {
                p.handle_observed_remote_mute(cl, *a, *b);
                (None, format!("muted {cl} {a} {b}"))
            }
            Say::Report(j) => {
                p.handle_rtc_stats_report(j.clone());
                (None, format!("report {j}"))
            }
            Say::GroupEnded(n, t) => {
                p.handle_ended(cl, why(*n), summary(t));
                (None, format!("group ended {cl} {:?} {t}", why(*n)))
            }
            Say::Ring(g, r, from, u) => {
                let u = [
                    RingUpdate::Requested,
                    RingUpdate::ExpiredRequest,
                    RingUpdate::AcceptedOnAnotherDevice,
                    RingUpdate::DeclinedOnAnotherDevice,
                    RingUpdate::BusyLocally,
                    RingUpdate::BusyOnAnotherDevice,
                    RingUpdate::CancelledByRinger,
                ][*u as usize % 7];
                p.group_call_ring_update(g.clone(), RingId::from(*r), from.clone(), u);
                (None, format!("ring {g:?} {} {from:?} {u:?}", RingId::from(*r)))
            }
            Say::Compare(other) => {
                let same = p.compare_remotes(&peer, other).map_err(|e| e.to_string())?;
                ensure_eq!(same, peer == *other);
                continue;
            }
        };
        let got = std::mem::take(&mut *app.said.lock().unwrap());
        ensure!(got == [want.as_str()], "{s:?}: the app was told {got:?} instead of {want:?}");
        if let Some(err) = r {
            ensure!(err == *fails, "{s:?}: {} although the app {}", if err { "failed" } else { "succeeded" }, if *fails { "failed" } else { "didn't fail" });
        }
        o.label_if(*fails, "the app fails");
    }
    o.nontrivial_if(c.says.len() > 3);
    drop(p);
    w.audit(true).map_err(|e| e.into())
}

struct Screen;
impl VideoSink for Screen {
    fn on_video_frame(&self, _: u32, _: VideoFrame) {}
    fn box_clone(&self) -> Box<dyn VideoSink> {
        Box::new(Screen)
    }
}
struct NoHttp;
impl http::Delegate for NoHttp {
    fn send_request(&self, _: u32, _: http::Request) {}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Making {
    hide_ip: bool,
    ice: Vec<(String, String, String, Vec<String>)>,
    jitter: (i32, i32, i32, bool),
    rtcp: i32,
    outgoing: bool,
    times: u8,
    fails: Option<bool>,
}
fn making() -> impl Strategy<Value = Making> {
    let text = || "[a-zA-Z0-9+/:=. ]{0,24}";
    (
        any::<bool>(),
        vec((text(), text(), text(), vec(text(), 0..4)), 0..4),
        any::<(i32, i32, i32, bool)>(),
        any::<i32>(),
        any::<bool>(),
        1..4u8,
        option::weighted(0.15, any::<bool>()),
    )
        .prop_map(|(hide_ip, ice, jitter, rtcp, outgoing, times, fails)| Making { hide_ip, ice, jitter, rtcp, outgoing, times, fails })
}
fn check_making(c: &Making, o: &mut Obs) -> Res {
    let w = new_local_world();
    let app = App::default();
    let pcf = PeerConnectionFactory::new(&Default::default(), false, "", None).map_err(|e| e.to_string())?;
    let audio = pcf.create_outgoing_audio_track().map_err(|e| e.to_string())?;
    let audio_ptr = w.last(Kind::AudioTrack).unwrap();
    let source = pcf.create_outgoing_video_source().map_err(|e| e.to_string())?;
    let video = pcf.create_outgoing_video_track(&source).map_err(|e| e.to_string())?;
    let video_ptr = w.last(Kind::VideoTrack).unwrap();
    let mut p = platform(&app, pcf.clone(), true);
    let cm = CallManager::new(platform(&app, pcf, true), http::DelegatingClient::new(NoHttp)).map_err(|e| e.to_string())?;
    let direction = if c.outgoing { CallDirection::Outgoing } else { CallDirection::Incoming };
    let mut call = Call::new("peer".to_string(), CallId::new(7), direction, CallMediaType::Audio, 1, cm.clone()).map_err(|e| e.to_string())?;
    let servers: Vec<IceServer> = c.ice.iter().map(|(u, p, h, urls)| IceServer::new(u.clone(), p.clone(), h.clone(), urls.clone())).collect();
    let ctx = NativeCallContext::new(c.hide_ip, servers, audio, video, Box::new(Screen));
    call.set_call_context(ctx).map_err(|e| e.to_string())?;
    let cfg = CallConfig {
        audio_jitter_buffer_config: ringrtc::webrtc::peer_connection_factory::AudioJitterBufferConfig {
            max_packets: c.jitter.0,
            min_delay_ms: c.jitter.1,
            max_target_delay_ms: c.jitter.2,
            fast_accelerate: c.jitter.3,
        },
        audio_rtcp_report_interval_ms: c.rtcp,
        ..Default::default()
    };
    let mut connections = vec![];
    for n in 0..c.times {
        let what = if c.fails == Some(true) { "peer_connection" } else { "pc_observer" };
        if n + 1 == c.times && c.fails.is_some() {
            w.set_fail(what, 0);
        }
        let made = w.all(Kind::Pc).len();
        let kind = if c.outgoing { ConnectionType::OutgoingChild } else { ConnectionType::Incoming };
        let r = p.create_connection(&call, n as u32 + 1, kind, signaling::Version::V4, cfg.clone(), None);
        let Ok(connection) = r else {
            ensure!(n + 1 == c.times && c.fails.is_some(), "no connection: {:?}", r.err().map(|e| e.to_string()));
            o.label("the engine fails");
            continue;
        };
        ensure!(c.fails.is_none() || n + 1 < c.times, "a connection was made without what it takes");
        ensure_eq!(w.all(Kind::Pc).len(), made + 1);
        let obs = w.last(Kind::PcObserver).unwrap();
        let (_, _, flags) = fake::pc_observer(obs);
        // No frame encryption; frames are wanted, with what's in them.
        ensure_eq!(flags, (false, true, true));
        let r = at(w.last(Kind::Pc).unwrap()).pc(|s| -> Res {
            ensure!(s.observer == obs, "somebody else is told of this connection");
            ensure!(s.kind == c.hide_ip as u8, "made a connection of kind {}; the IP address {} be hidden", s.kind, if c.hide_ip { "was to" } else { "needn't" });
            ensure_eq!(s.jitter, c.jitter);
            ensure_eq!(s.rtcp_ms, c.rtcp);
            ensure!(s.audio == audio_ptr && s.video == video_ptr, "other tracks");
            let ice: Vec<IceServerRec> = c
                .ice
                .iter()
                .map(|(u, p, h, urls)| IceServerRec { username: u.clone(), password: p.clone(), hostname: h.clone(), urls: urls.clone() })
                .collect();
            ensure!(s.ice == ice, "other servers: {:?}", s.ice);
            Ok(())
        });
        r?;
        connections.push(connection);
    }
    o.nontrivial_if(connections.len() > 0);
    for c in &mut connections {
        // It was never started, so there's nothing to wait for.
        let _ = c.notify_terminate_complete();
        let _ = c.terminate();
    }
    let _ = call.terminate();
    drop(connections);
    drop(source);
    let mut cm = cm;
    let _ = cm.close();
    Ok(())
}

pub fn n07(r: &mut Runner) {
    r.facet("what the app is told", "more than three things were told", par(20_000), || {
        let one = (say(), prop_oneof!["[ab]{1,2}", "[a-z0-9-]{8}"], any::<u64>(), any::<u32>(), prop::bool::weighted(0.1));
        (vec(one, 1..24), any::<bool>()).prop_map(|(says, assume)| Case { says, assume })
    }, |c: &Case, o: &mut Obs| check(c, o));
    r.facet("connections as wanted", "a connection was made", par(2000), making, |c: &Making, o: &mut Obs| check_making(c, o));
}
