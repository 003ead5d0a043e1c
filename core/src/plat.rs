//! A recording application platform for the call manager: every callback is
//! appended to one ordered log, every callback can be made to fail, and the
//! peer connections it hands out stay reachable from the harness.
use std::{
    collections::{BTreeSet, HashMap, HashSet},
    fmt,
    sync::{Arc, Condvar, Mutex, MutexGuard},
    time::{Duration, Instant},
};

use prost::Message as _;
use ringrtc::{
    common::{
        ApplicationEvent, CallConfig, CallDirection, CallEndReason, CallId, CallMediaType, DeviceId, Result,
    },
    core::{
        call::Call,
        call_manager::CallManager,
        call_summary::CallSummary,
        connection::{Connection, ConnectionType},
        group_call,
        platform::Platform,
        signaling,
    },
    lite::{
        http,
        sfu::{self, DemuxId, PeekInfo, PeekResult, UserId},
    },
    protobuf,
    webrtc::{
        self,
        media::{MediaStream, VideoTrack},
        peer_connection::{AudioLevel, PeerConnection, ReceivedAudioLevel},
        peer_connection_observer::NetworkRoute,
        rtp,
        sim::peer_connection::RffiPeerConnection,
    },
};

pub const MARK: u64 = 0xffff_0000_0000_0000;

/// One line of the log: what the library told the application, or (`Api`)
/// what the harness told the library.
#[derive(Clone, Debug)]
pub enum Rec {
    Create { call: u64, device: u32, kind: ConnectionType },
    Start { peer: String, call: u64, dir: CallDirection, media: CallMediaType },
    Event { peer: String, call: u64, ev: ApplicationEvent },
    Route { peer: String, route: NetworkRoute },
    AudioLevels { peer: String, captured: u16, received: u16 },
    LowBandwidth { peer: String, recovered: bool },
    SendOffer { peer: String, call: u64, media: CallMediaType, offer: Vec<u8> },
    SendAnswer { peer: String, call: u64, device: u32, answer: Vec<u8> },
    SendIce { peer: String, call: u64, device: Option<u32>, ice: Vec<Vec<u8>> },
    SendHangup { peer: String, call: u64, hangup: signaling::Hangup },
    SendBusy { peer: String, call: u64 },
    CallMessage { to: Vec<u8>, message: Vec<u8>, urgency: group_call::SignalingMessageUrgency },
    GroupMessage { group: Vec<u8>, message: Vec<u8>, urgency: group_call::SignalingMessageUrgency, only: BTreeSet<UserId> },
    AdhocMessage { message: Vec<u8>, expiration: u64, to: BTreeSet<UserId> },
    CreateMedia { call: u64, device: u32 },
    ConnectMedia { peer: String, ctx: String },
    DisconnectMedia { ctx: String },
    Expired { peer: String, call: u64, age: Duration },
    Ended { peer: String, call: u64, reason: CallEndReason },
    Concluded { peer: String, call: u64 },
    Ring { group: Vec<u8>, ring: i64, sender: UserId, update: group_call::RingUpdate },
    Peek { id: u32, ok: bool },
    GroupEnded { client: u32, reason: CallEndReason },
    GroupConnection { client: u32, state: group_call::ConnectionState },
    GroupJoin { client: u32, state: group_call::JoinState },
    AskMembers { client: u32 },
    Api(&'static str, u64),
}

impl Rec {
    pub fn call(&self) -> Option<u64> {
        use Rec::*;
        Some(match self {
            Create { call, .. }
            | Start { call, .. }
            | Event { call, .. }
            | SendOffer { call, .. }
            | SendAnswer { call, .. }
            | SendIce { call, .. }
            | SendHangup { call, .. }
            | SendBusy { call, .. }
            | CreateMedia { call, .. }
            | Expired { call, .. }
            | Ended { call, .. }
            | Concluded { call, .. } => *call,
            _ => return None,
        })
    }
    pub fn is_send(&self) -> bool {
        matches!(
            self,
            Rec::SendOffer { .. } | Rec::SendAnswer { .. } | Rec::SendIce { .. } | Rec::SendHangup { .. } | Rec::SendBusy { .. }
        )
    }
    pub fn short(&self) -> String {
        match self {
            Rec::Start { call, dir, .. } => format!("start({call},{dir:?})"),
            Rec::Event { call, ev, .. } => format!("{ev}({call})"),
            Rec::SendOffer { call, .. } => format!("send-offer({call})"),
            Rec::SendAnswer { call, device, .. } => format!("send-answer({call},{device})"),
            Rec::SendIce { call, device, ice, .. } => format!("send-ice({call},{device:?},{})", ice.len()),
            Rec::SendHangup { call, hangup, .. } => format!("send-hangup({call},{hangup})"),
            Rec::SendBusy { call, .. } => format!("send-busy({call})"),
            Rec::Ended { call, reason, .. } => format!("ended({call},{reason})"),
            Rec::Concluded { call, .. } => format!("concluded({call})"),
            Rec::Expired { call, .. } => format!("expired({call})"),
            Rec::Api(what, call) => format!("api:{what}({call})"),
            o => format!("{o:?}"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Point {
    Create,
    Start,
    Event,
    SendOffer,
    SendAnswer,
    SendIce,
    SendHangup,
    SendBusy,
    CreateMedia,
    ConnectMedia,
    Ended,
    Concluded,
}
pub const POINTS: [Point; 12] = [
    Point::Create,
    Point::Start,
    Point::Event,
    Point::SendOffer,
    Point::SendAnswer,
    Point::SendIce,
    Point::SendHangup,
    Point::SendBusy,
    Point::CreateMedia,
    Point::ConnectMedia,
    Point::Ended,
    Point::Concluded,
];

#[derive(Default)]
pub struct Inner {
    pub log: Vec<Rec>,
    /// Callbacks that return an error the given number of further times.
    pub fail: HashMap<Point, u32>,
    pub pcs: HashMap<(u64, u32, bool), RffiPeerConnection>,
    pub http: Vec<(u32, http::Request)>,
    /// Every RTP data message sent, with the call and remote device it went to.
    pub rtp: Vec<(u64, u32, rtp::Header, protobuf::rtp_data::Message)>,
}

#[derive(Default)]
pub struct Shared {
    pub inner: Mutex<Inner>,
    cv: Condvar,
}

impl Shared {
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn push(&self, r: Rec) {
        self.lock().log.push(r);
        self.cv.notify_all();
    }
    fn put(&self, p: Point, r: Rec) -> Result<()> {
        let mut i = self.lock();
        i.log.push(r);
        let failing = match i.fail.get_mut(&p) {
            Some(n) if *n > 0 => {
                *n -= 1;
                true
            }
            _ => false,
        };
        drop(i);
        self.cv.notify_all();
        if failing { Err(anyhow::anyhow!("injected {p:?} failure")) } else { Ok(()) }
    }
    /// Waits until the log satisfies `f`; false when `limit` passes first.
    pub fn wait(&self, limit: Duration, mut f: impl FnMut(&[Rec]) -> bool) -> bool {
        let end = Instant::now() + limit;
        let mut i = self.lock();
        loop {
            if f(&i.log) {
                return true;
            }
            let now = Instant::now();
            if now >= end {
                return false;
            }
            i = self.cv.wait_timeout(i, end - now).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
    pub fn log(&self) -> Vec<Rec> {
        self.lock().log.clone()
    }
    pub fn len(&self) -> usize {
        self.lock().log.len()
    }
}

#[derive(Clone)]
pub struct Plat(pub Arc<Shared>);

impl fmt::Debug for Plat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Plat")
    }
}
impl fmt::Display for Plat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Plat")
    }
}

impl sfu::Delegate for Plat {
    fn handle_peek_result(&self, request_id: u32, peek_result: PeekResult) {
        self.0.push(Rec::Peek { id: request_id, ok: peek_result.is_ok() });
    }
}

impl Platform for Plat {
    type AppIncomingMedia = String;
    type AppRemotePeer = String;
    type AppConnection = RffiPeerConnection;
    type AppCallContext = String;

    fn create_connection(
        &mut self,
        call: &Call<Self>,
        device: DeviceId,
        kind: ConnectionType,
        _version: signaling::Version,
        config: CallConfig,
        interval: Option<Duration>,
    ) -> Result<Connection<Self>> {
        let id = call.call_id().as_u64();
        self.0.put(Point::Create, Rec::Create { call: id, device, kind })?;
        let fake = RffiPeerConnection::new();
        let weak = Arc::downgrade(&self.0);
        fake.set_rtp_packet_sink(Box::new(move |header, bytes| {
            if let (Some(sh), Ok(m)) = (weak.upgrade(), protobuf::rtp_data::Message::decode(bytes)) {
                sh.lock().rtp.push((id, device, header, m));
                sh.cv.notify_all();
            }
        }));
        self.0
            .lock()
            .pcs
            .insert((id, device, kind == ConnectionType::OutgoingParent), fake.clone());
        let c = Connection::new(call.clone(), device, kind, config, interval, None)?;
        c.set_app_connection(fake.clone())?;
        let raw: &'static RffiPeerConnection = Box::leak(Box::new(fake));
        let rc = unsafe { webrtc::Arc::from_borrowed(webrtc::ptr::BorrowedRc::from_ptr(raw)) };
        c.set_peer_connection(PeerConnection::new(rc, None, None))?;
        Ok(c)
    }
    fn on_start_call(&self, peer: &String, call: CallId, dir: CallDirection, media: CallMediaType) -> Result<()> {
        self.0
            .put(Point::Start, Rec::Start { peer: peer.clone(), call: call.as_u64(), dir, media })
    }
    fn on_event(&self, peer: &String, call: CallId, ev: ApplicationEvent) -> Result<()> {
        self.0
            .put(Point::Event, Rec::Event { peer: peer.clone(), call: call.as_u64(), ev })
    }
    fn on_network_route_changed(&self, peer: &String, route: NetworkRoute) -> Result<()> {
        self.0.push(Rec::Route { peer: peer.clone(), route });
        Ok(())
    }
    fn on_audio_levels(&self, peer: &String, captured: AudioLevel, received: AudioLevel) -> Result<()> {
        self.0.push(Rec::AudioLevels { peer: peer.clone(), captured, received });
        Ok(())
    }
    fn on_low_bandwidth_for_video(&self, peer: &String, recovered: bool) -> Result<()> {
        self.0.push(Rec::LowBandwidth { peer: peer.clone(), recovered });
        Ok(())
    }
    fn on_send_offer(&self, peer: &String, call: CallId, offer: signaling::Offer) -> Result<()> {
        self.0
            .put(Point::SendOffer, Rec::SendOffer { peer: peer.clone(), call: call.as_u64(), media: offer.call_media_type, offer: offer.opaque })
    }
    fn on_send_answer(&self, peer: &String, call: CallId, send: signaling::SendAnswer) -> Result<()> {
        self.0.put(
            Point::SendAnswer,
            Rec::SendAnswer {
                peer: peer.clone(),
                call: call.as_u64(),
                device: send.receiver_device_id,
                answer: send.answer.opaque,
            },
        )
    }
    fn on_send_ice(&self, peer: &String, call: CallId, send: signaling::SendIce) -> Result<()> {
        self.0.put(
            Point::SendIce,
            Rec::SendIce {
                peer: peer.clone(),
                call: call.as_u64(),
                device: send.receiver_device_id,
                ice: send.ice.candidates.into_iter().map(|c| c.opaque).collect(),
            },
        )
    }
    fn on_send_hangup(&self, peer: &String, call: CallId, send: signaling::SendHangup) -> Result<()> {
        self.0.put(
            Point::SendHangup,
            Rec::SendHangup { peer: peer.clone(), call: call.as_u64(), hangup: send.hangup },
        )
    }
    fn on_send_busy(&self, peer: &String, call: CallId) -> Result<()> {
        self.0.put(Point::SendBusy, Rec::SendBusy { peer: peer.clone(), call: call.as_u64() })
    }
    fn send_call_message(
        &self,
        to: Vec<u8>,
        message: Vec<u8>,
        urgency: group_call::SignalingMessageUrgency,
    ) -> Result<()> {
        self.0.push(Rec::CallMessage { to, message, urgency });
        Ok(())
    }
    fn send_call_message_to_group(
        &self,
        group: Vec<u8>,
        message: Vec<u8>,
        urgency: group_call::SignalingMessageUrgency,
        only: HashSet<UserId>,
    ) -> Result<()> {
        self.0
            .push(Rec::GroupMessage { group, message, urgency, only: only.into_iter().collect() });
        Ok(())
    }
    fn send_call_message_to_adhoc_group(
        &self,
        message: Vec<u8>,
        _urgency: group_call::SignalingMessageUrgency,
        expiration: u64,
        to: HashMap<UserId, Vec<u8>>,
    ) -> Result<()> {
        self.0
            .push(Rec::AdhocMessage { message, expiration, to: to.into_keys().collect() });
        Ok(())
    }
    fn create_incoming_media(&self, c: &Connection<Self>, _: MediaStream) -> Result<String> {
        let (call, device) = (c.call_id().as_u64(), c.remote_device_id());
        self.0.put(Point::CreateMedia, Rec::CreateMedia { call, device })?;
        Ok(format!("{call}.{device}"))
    }
    fn connect_incoming_media(&self, peer: &String, ctx: &String, _: &String) -> Result<()> {
        self.0
            .put(Point::ConnectMedia, Rec::ConnectMedia { peer: peer.clone(), ctx: ctx.clone() })
    }
    fn disconnect_incoming_media(&self, ctx: &String) -> Result<()> {
        self.0.push(Rec::DisconnectMedia { ctx: ctx.clone() });
        Ok(())
    }
    fn compare_remotes(&self, a: &String, b: &String) -> Result<bool> {
        Ok(a == b)
    }
    fn on_offer_expired(&self, peer: &String, call: CallId, age: Duration) -> Result<()> {
        self.0.push(Rec::Expired { peer: peer.clone(), call: call.as_u64(), age });
        Ok(())
    }
    fn on_call_ended(&self, peer: &String, call: CallId, reason: CallEndReason, _: CallSummary) -> Result<()> {
        self.0
            .put(Point::Ended, Rec::Ended { peer: peer.clone(), call: call.as_u64(), reason })
    }
    fn on_call_concluded(&self, peer: &String, call: CallId) -> Result<()> {
        self.0
            .put(Point::Concluded, Rec::Concluded { peer: peer.clone(), call: call.as_u64() })
    }

    fn group_call_ring_update(
        &self,
        group: group_call::GroupId,
        ring: group_call::RingId,
        sender: UserId,
        update: group_call::RingUpdate,
    ) {
        self.0.push(Rec::Ring { group, ring: ring.into(), sender, update });
    }
    fn request_membership_proof(&self, _: group_call::ClientId) {}
    fn request_group_members(&self, client: group_call::ClientId) {
        self.0.push(Rec::AskMembers { client });
    }
    fn handle_connection_state_changed(&self, client: group_call::ClientId, state: group_call::ConnectionState) {
        self.0.push(Rec::GroupConnection { client, state });
    }
    fn handle_network_route_changed(&self, _: group_call::ClientId, _: NetworkRoute) {}
    fn handle_join_state_changed(&self, client: group_call::ClientId, state: group_call::JoinState) {
        self.0.push(Rec::GroupJoin { client, state });
    }
    fn handle_remote_devices_changed(
        &self,
        _: group_call::ClientId,
        _: &[group_call::RemoteDeviceState],
        _: group_call::RemoteDevicesChangedReason,
    ) {
    }
    fn handle_incoming_video_track(&self, _: group_call::ClientId, _: DemuxId, _: VideoTrack) {}
    fn handle_peek_changed(&self, _: group_call::ClientId, _: &PeekInfo, _: &HashSet<UserId>) {}
    fn handle_speaking_notification(&self, _: group_call::ClientId, _: group_call::SpeechEvent) {}
    fn handle_audio_levels(&self, _: group_call::ClientId, _: AudioLevel, _: Vec<ReceivedAudioLevel>) {}
    fn handle_reactions(&self, _: group_call::ClientId, _: Vec<group_call::Reaction>) {}
    fn handle_raised_hands(&self, _: group_call::ClientId, _: Vec<DemuxId>) {}
    fn handle_ended(&self, client: group_call::ClientId, reason: CallEndReason, _: CallSummary) {
        self.0.push(Rec::GroupEnded { client, reason });
    }
    fn handle_remote_mute_request(&self, _: group_call::ClientId, _: DemuxId) {}
    fn handle_observed_remote_mute(&self, _: group_call::ClientId, _: DemuxId, _: DemuxId) {}
}

struct Http(Arc<Shared>);
impl http::Delegate for Http {
    fn send_request(&self, id: u32, request: http::Request) {
        self.0.lock().http.push((id, request));
    }
}

pub type Cm = CallManager<Plat>;
pub type Conn = Connection<Plat>;

/// One device: a call manager and what it told its application.
pub struct Device {
    pub cm: Cm,
    pub sh: Arc<Shared>,
    marks: u64,
}

pub const LONG: Duration = Duration::from_secs(20);

impl Device {
    pub fn new() -> Device {
        let sh = Arc::new(Shared::default());
        let cm = CallManager::new(Plat(sh.clone()), http::DelegatingClient::new(Http(sh.clone()))).unwrap();
        Device { cm, sh, marks: 0 }
    }
    pub fn api(&self, what: &'static str, call: u64) {
        self.sh.push(Rec::Api(what, call));
    }
    /// Returns once everything already queued on the call manager's worker
    /// has run: an offer too old to matter is answered from that very thread.
    pub fn barrier(&mut self) -> std::result::Result<(), harness::Fail> {
        self.marks += 1;
        let id = MARK + self.marks;
        let offer = offer(CallMediaType::Audio, 1);
        let _ = self.cm.received_offer(
            "marker".into(),
            CallId::new(id),
            received_offer(offer, 61, 1, 1),
        );
        harness::ensure!(
            self.sh.wait(LONG, |l| l.iter().rev().any(|r| matches!(r, Rec::Concluded { call, .. } if *call == id))),
            "the call manager's worker is stuck: an API call made {LONG:?} ago has not run"
        );
        Ok(())
    }
    /// The worker's queue has been drained twice: whatever it had scheduled
    /// for itself, terminations included, is done.
    pub fn flush(&mut self) -> std::result::Result<(), harness::Fail> {
        self.barrier()?;
        self.barrier()
    }
    /// Runs everything to completion. Only when no call can be terminating on
    /// a thread of its own.
    pub fn settle(&mut self) -> std::result::Result<(), harness::Fail> {
        self.flush()?;
        let _ = self.cm.synchronize();
        Ok(())
    }
    pub fn concluded(&self, id: u64) -> bool {
        self.sh
            .wait(LONG, |l| l.iter().any(|r| matches!(r, Rec::Concluded { call, .. } if *call == id)))
    }
    pub fn log(&self) -> Vec<Rec> {
        let mut l = self.sh.log();
        l.retain(|r| r.call().is_none_or(|c| c < MARK));
        l
    }
    pub fn pc(&self, call: u64, device: u32) -> Option<RffiPeerConnection> {
        self.sh.lock().pcs.get(&(call, device, false)).cloned()
    }
    pub fn conn(&self, device: u32) -> Option<Conn> {
        self.cm.active_call().ok()?.get_connection(device).ok()
    }
    pub fn active_id(&self) -> Option<u64> {
        self.cm.active_call().ok().map(|c| c.call_id().as_u64())
    }
    pub fn close(mut self) {
        let _ = self.cm.close();
    }
}

pub fn show(log: &[Rec]) -> String {
    log.iter().map(Rec::short).collect::<Vec<_>>().join(" ")
}

pub fn v4(seed: u64) -> protobuf::signaling::ConnectionParametersV4 {
    let mut key = [9u8; 32];
    key[..8].copy_from_slice(&seed.to_le_bytes());
    protobuf::signaling::ConnectionParametersV4 {
        public_key: Some(key.to_vec()),
        ice_ufrag: None,
        ice_pwd: None,
        receive_video_codecs: vec![],
        decode_only_video_codecs: vec![],
        encode_only_video_codecs: vec![],
        max_bitrate_bps: None,
    }
}
pub fn offer(media: CallMediaType, seed: u64) -> signaling::Offer {
    signaling::Offer::from_v4(media, v4(seed)).unwrap()
}
pub fn answer(seed: u64) -> signaling::Answer {
    signaling::Answer::from_v4(v4(seed)).unwrap()
}
pub fn received_offer(offer: signaling::Offer, age: u64, from: u32, to: u32) -> signaling::ReceivedOffer {
    signaling::ReceivedOffer {
        offer,
        age: Duration::from_secs(age),
        sender_device_id: from,
        receiver_device_id: to,
        sender_identity_key: vec![1; 33],
        receiver_identity_key: vec![2; 33],
    }
}
pub fn received_answer(answer: signaling::Answer, from: u32) -> signaling::ReceivedAnswer {
    signaling::ReceivedAnswer {
        answer,
        sender_device_id: from,
        sender_identity_key: vec![2; 33],
        receiver_identity_key: vec![1; 33],
    }
}
pub fn ice(n: u32) -> signaling::IceCandidate {
    signaling::IceCandidate::from_v3_sdp(format!("candidate:{n} 1 udp 1 10.0.0.{} 5 typ host", n % 250)).unwrap()
}
pub fn received_ice(ns: &[u32], from: u32) -> signaling::ReceivedIce {
    signaling::ReceivedIce {
        ice: signaling::Ice { candidates: ns.iter().map(|n| ice(*n)).collect() },
        sender_device_id: from,
    }
}
