//! One client of a group call with everything around it under control: the
//! SFU, the signaling service, the engine and the app.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque},
    sync::{Arc, Condvar, Mutex, mpsc},
    time::{Duration, Instant, SystemTime},
};

use ringrtc::{
    common::CallEndReason,
    core::{
        assets::AssetRegistry,
        call_mutex::CallMutex,
        call_summary::CallSummary,
        endorsements::{EndorsementUpdateResultRef, EndorsementsCache},
        group_call::{
            Client, ClientStartParams, ConnectionState, GroupCallKind, GroupId, HeartbeatState, JoinState, Joined, Observer, Reaction,
            RemoteDeviceState, RemoteDevicesChangedReason, RingId, SfuClient, SfuInfo, SignalingMessageUrgency, SpeechEvent,
        },
    },
    lite::sfu::{GroupMember, MemberResolver, MembershipProof, ObfuscatedResolver, PeekInfo, PeekResultCallback, UserId, sha256_as_hexstring},
    protobuf::signaling::CallMessage,
    webrtc::{
        self,
        media::{AudioTrack, VideoTrack},
        peer_connection::{AudioLevel, ReceivedAudioLevel, SendRates},
        peer_connection_observer::NetworkRoute,
        rtp,
        sim::{media::FAKE_AUDIO_TRACK, peer_connection::RffiPeerConnection},
    },
};

pub const GROUP: &[u8] = b"the group";
pub const LONG: Duration = Duration::from_secs(20);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Ids,
    Key(u32),
    Speaker(u32),
    Beat(u32),
    Forwarded,
    Resolution,
}
/// A remote device as the app sees it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dev {
    pub id: u32,
    pub user: UserId,
    pub keys: bool,
    pub beat: HeartbeatState,
    pub spoke: Option<SystemTime>,
    pub added: SystemTime,
    pub leaving: bool,
    pub forwarding: Option<bool>,
    pub server_h: u16,
    pub decoded: Option<u32>,
    pub pending: bool,
}

/// Everything the client does that can be seen from outside, in order.
#[derive(Clone, Debug)]
pub enum Ev {
    AskProof,
    AskMembers,
    Direct { to: UserId, msg: CallMessage, urgent: bool },
    Group { group: GroupId, msg: CallMessage, urgent: bool, to: BTreeSet<UserId> },
    Adhoc { msg: CallMessage, urgent: bool, expiration: u64, to: BTreeMap<UserId, Vec<u8>> },
    /// A set of endorsements, or why there is none.
    Endorsements(Result<(u64, BTreeMap<UserId, Vec<u8>>), String>),
    Conn(ConnectionState),
    Join(JoinState),
    Rates(SendRates),
    Remote(Vec<Dev>, Why),
    Peek(PeekInfo, BTreeSet<UserId>),
    Speech(SpeechEvent),
    LowBandwidth(bool),
    Reactions(Vec<(u32, String)>),
    Hands(Vec<u32>),
    MuteRequest(u32),
    ObservedMute(u32, u32),
    Ended(CallEndReason),
    SfuJoin,
    SfuPeek,
    SfuProof(Vec<u8>),
    SfuMembers(BTreeSet<UserId>),
    Rtp(Rtp),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rtp {
    pub pt: u8,
    pub ssrc: u32,
    pub seqnum: u16,
    pub timestamp: u32,
    pub payload: Vec<u8>,
}

pub type Sink = Arc<dyn Fn(&Ev) + Send + Sync>;
#[derive(Default)]
pub struct Log {
    evs: Mutex<Vec<Ev>>,
    cond: Condvar,
    sink: Mutex<Option<Sink>>,
}
impl Log {
    fn push(&self, e: Ev) {
        let sink = self.sink.lock().unwrap().clone();
        if let Some(s) = sink {
            s(&e);
        }
        self.evs.lock().unwrap().push(e);
        self.cond.notify_all();
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.evs.lock().unwrap())
    }
    pub fn put_back(&self, evs: Vec<Ev>) {
        let mut l = self.evs.lock().unwrap();
        let later = std::mem::replace(&mut *l, evs);
        l.extend(later);
    }
    /// Waits until what has been logged and not taken satisfies `f`.
    pub fn wait(&self, limit: Duration, f: impl Fn(&[Ev]) -> bool) -> bool {
        let end = Instant::now() + limit;
        let mut evs = self.evs.lock().unwrap();
        loop {
            if f(&evs) {
                return true;
            }
            let now = Instant::now();
            if now >= end {
                return false;
            }
            evs = self.cond.wait_timeout(evs, end - now).unwrap().0;
        }
    }
}

struct Watcher {
    log: Arc<Log>,
}
impl Observer for Watcher {
    fn request_membership_proof(&self, _: u32) {
        self.log.push(Ev::AskProof)
    }
    fn request_group_members(&self, _: u32) {
        self.log.push(Ev::AskMembers)
    }
    fn send_signaling_message(&mut self, to: UserId, msg: CallMessage, urgency: SignalingMessageUrgency) {
        self.log.push(Ev::Direct { to, msg, urgent: urgency == SignalingMessageUrgency::HandleImmediately })
    }
    fn send_signaling_message_to_group(&mut self, group: GroupId, msg: CallMessage, urgency: SignalingMessageUrgency, to: HashSet<UserId>) {
        self.log.push(Ev::Group {
            group,
            msg,
            urgent: urgency == SignalingMessageUrgency::HandleImmediately,
            to: to.into_iter().collect(),
        })
    }
    fn send_signaling_message_to_adhoc_group(&mut self, msg: CallMessage, urgency: SignalingMessageUrgency, expiration: u64, to: HashMap<UserId, Vec<u8>>) {
        let urgent = urgency == SignalingMessageUrgency::HandleImmediately;
        self.log.push(Ev::Adhoc { msg, urgent, expiration, to: to.into_iter().collect() })
    }
    fn handle_connection_state_changed(&self, _: u32, s: ConnectionState) {
        self.log.push(Ev::Conn(s))
    }
    fn handle_network_route_changed(&self, _: u32, _: NetworkRoute) {}
    fn handle_join_state_changed(&self, _: u32, s: JoinState) {
        self.log.push(Ev::Join(s))
    }
    fn handle_send_rates_changed(&self, _: u32, r: SendRates) {
        self.log.push(Ev::Rates(r))
    }
    fn handle_remote_devices_changed(&self, _: u32, devs: &[RemoteDeviceState], why: RemoteDevicesChangedReason) {
        use RemoteDevicesChangedReason as R;
        let why = match why {
            R::DemuxIdsChanged => Why::Ids,
            R::MediaKeyReceived(d) => Why::Key(d),
            R::SpeakerTimeChanged(d) => Why::Speaker(d),
            R::HeartbeatStateChanged(d) => Why::Beat(d),
            R::ForwardedVideosChanged => Why::Forwarded,
            R::HigherResolutionPendingChanged => Why::Resolution,
        };
        let mut devs: Vec<Dev> = devs
            .iter()
            .map(|d| Dev {
                id: d.demux_id,
                user: d.user_id.clone(),
                keys: d.media_keys_received,
                beat: d.heartbeat_state.clone(),
                spoke: d.speaker_time,
                added: d.added_time,
                leaving: d.leaving_received,
                forwarding: d.forwarding_video,
                server_h: d.server_allocated_height,
                decoded: d.client_decoded_height,
                pending: d.is_higher_resolution_pending,
            })
            .collect();
        devs.sort_by_key(|d| d.id);
        self.log.push(Ev::Remote(devs, why))
    }
    fn handle_peek_changed(&self, _: u32, info: &PeekInfo, members: &HashSet<UserId>) {
        self.log.push(Ev::Peek(info.clone(), members.iter().cloned().collect()))
    }
    fn handle_incoming_video_track(&mut self, _: u32, _: u32, _: VideoTrack) {}
    fn handle_speaking_notification(&mut self, _: u32, e: SpeechEvent) {
        self.log.push(Ev::Speech(e))
    }
    fn handle_audio_levels(&self, _: u32, _: AudioLevel, _: Vec<ReceivedAudioLevel>) {}
    fn handle_low_bandwidth_for_video(&self, _: u32, recovered: bool) {
        self.log.push(Ev::LowBandwidth(recovered))
    }
    fn handle_reactions(&self, _: u32, r: Vec<Reaction>) {
        self.log.push(Ev::Reactions(r.into_iter().map(|r| (r.demux_id, r.value)).collect()))
    }
    fn handle_raised_hands(&self, _: u32, h: Vec<u32>) {
        self.log.push(Ev::Hands(h))
    }
    fn handle_remote_mute_request(&self, _: u32, from: u32) {
        self.log.push(Ev::MuteRequest(from))
    }
    fn handle_observed_remote_mute(&self, _: u32, by: u32, who: u32) {
        self.log.push(Ev::ObservedMute(by, who))
    }
    fn handle_rtc_stats_report(&self, _: String) {}
    fn handle_ended(&self, _: u32, why: CallEndReason, _: CallSummary) {
        self.log.push(Ev::Ended(why))
    }
    fn handle_endorsements_update(&self, _: u32, r: EndorsementUpdateResultRef) {
        let r = r.map(|(t, m)| (t.epoch_seconds(), m.iter().map(|(u, e)| (u.clone(), zkgroup::serialize(e))).collect()));
        self.log.push(Ev::Endorsements(r.map_err(|e| e.to_string())))
    }
}

pub struct Join {
    pub ufrag: String,
    pub pwd: String,
    pub key: [u8; 32],
    pub _client: Client,
}
#[derive(Default)]
pub struct Asked {
    pub joins: Vec<Join>,
    pub peeks: VecDeque<PeekResultCallback>,
}
struct Sfu {
    log: Arc<Log>,
    asked: Arc<Mutex<Asked>>,
}
impl SfuClient for Sfu {
    fn join(&mut self, ufrag: &str, pwd: &str, key: [u8; 32], client: Client) {
        self.asked.lock().unwrap().joins.push(Join { ufrag: ufrag.into(), pwd: pwd.into(), key, _client: client });
        self.log.push(Ev::SfuJoin);
    }
    fn peek(&mut self, done: PeekResultCallback) {
        self.asked.lock().unwrap().peeks.push_back(done);
        self.log.push(Ev::SfuPeek);
    }
    fn set_membership_proof(&mut self, proof: MembershipProof) {
        self.log.push(Ev::SfuProof(proof));
    }
    fn set_group_members(&mut self, members: Vec<GroupMember>) {
        self.log.push(Ev::SfuMembers(members.into_iter().map(|m| m.user_id).collect()));
    }
}

/// User n.
pub fn user(n: u8) -> UserId {
    vec![n + 1; 16]
}
pub fn member(n: u8) -> GroupMember {
    GroupMember { user_id: user(n), member_id: vec![n + 101; 65] }
}
pub fn opaque(n: u8) -> String {
    sha256_as_hexstring(&member(n).member_id)
}
/// Knows everybody.
struct Everybody;
impl MemberResolver for Everybody {
    fn resolve(&self, id: &str) -> Option<UserId> {
        (0..32).find(|&n| opaque(n) == id).map(user)
    }
    fn resolve_bytes(&self, id: &[u8]) -> Option<UserId> {
        self.resolve(&hex::encode(id))
    }
}

pub struct Rig {
    pub client: Client,
    pub log: Arc<Log>,
    pub asked: Arc<Mutex<Asked>>,
    pub pc: RffiPeerConnection,
    pub busy: Arc<CallMutex<bool>>,
    pub me: u32,
}

pub struct Start {
    pub kind: GroupCallKind,
    pub me: u32,
    pub uuid: Option<UserId>,
    pub ring: Option<RingId>,
    pub link: Option<(ObfuscatedResolver, Option<EndorsementsCache>)>,
}

impl Rig {
    pub fn new(s: Start) -> Rig {
        Self::with_sink(s, None)
    }
    pub fn with_sink(s: Start, sink: Option<Sink>) -> Rig {
        let log: Arc<Log> = Default::default();
        *log.sink.lock().unwrap() = sink;
        let asked: Arc<Mutex<Asked>> = Default::default();
        let busy = Arc::new(CallMutex::new(false, "busy"));
        let (resolver, cache) = s.link.unwrap_or_else(|| (ObfuscatedResolver::new(Arc::new(Everybody), None, None), None));
        let client = Client::start(ClientStartParams {
            group_id: GROUP.to_vec(),
            client_id: s.me,
            kind: s.kind,
            sfu_client: Box::new(Sfu { log: log.clone(), asked: asked.clone() }),
            observer: Box::new(Watcher { log: log.clone() }),
            busy: busy.clone(),
            self_uuid: Arc::new(CallMutex::new(s.uuid, "self uuid")),
            asset_registry: AssetRegistry::default(),
            peer_connection_factory: None,
            outgoing_audio_track: AudioTrack::new(
                webrtc::Arc::from_owned(unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_AUDIO_TRACK as *const u32) }),
                None,
            ),
            outgoing_video_track: None,
            incoming_video_sink: None,
            ring_id: s.ring,
            audio_levels_interval: None,
            dred_duration: 0,
            obfuscated_resolver: resolver,
            group_send_endorsement_cache: cache,
        })
        .expect("the client starts");
        let pc = client.verif_peer_connection();
        let l = log.clone();
        pc.set_rtp_packet_sink(Box::new(move |h: rtp::Header, payload: &[u8]| {
            l.push(Ev::Rtp(Rtp { pt: h.pt, ssrc: h.ssrc, seqnum: h.seqnum, timestamp: h.timestamp, payload: payload.to_vec() }))
        }));
        Rig { client, log, asked, pc, busy, me: s.me }
    }
    /// Waits until what was asked of the client so far has been done; false
    /// if the client has stopped.
    pub fn sync(&self) -> bool {
        for _ in 0..3 {
            let (tx, rx) = mpsc::channel();
            self.client.verif_observer(move |_| {
                let _ = tx.send(());
            });
            if rx.recv_timeout(LONG).is_err() {
                return false;
            }
        }
        true
    }
    pub fn joined(&self, state: JoinState, creator: Option<UserId>, era: &str, server_key: [u8; 32], host: bool) -> Joined {
        Joined {
            sfu_info: SfuInfo {
                udp_addresses: vec!["1.2.3.4:1234".parse().unwrap(), "[2001:db8::7]:77".parse().unwrap()],
                tcp_addresses: vec!["1.2.3.5:4321".parse().unwrap()],
                tls_addresses: vec!["1.2.3.6:443".parse().unwrap()],
                hostname: host.then(|| "sfu.example".into()),
                ice_ufrag: "sfu ufrag".into(),
                ice_pwd: "sfu pwd".into(),
            },
            local_demux_id: self.me,
            server_dhe_pub_key: server_key,
            hkdf_extra_info: b"extra".to_vec(),
            creator,
            era_id: era.into(),
            join_state: state,
        }
    }
    /// Hands an RTP packet to the client.
    pub fn rtp(&self, ssrc: u32, timestamp: u32, payload: &[u8]) {
        self.client.verif_receive_rtp(rtp::Header { pt: 101, seqnum: timestamp as u16, timestamp, ssrc }, payload);
    }
}
impl Drop for Rig {
    fn drop(&mut self) {
        *self.log.sink.lock().unwrap() = None;
        self.client.verif_stop();
        let mut a = self.asked.lock().unwrap();
        a.joins.clear();
        a.peeks.clear();
    }
}
