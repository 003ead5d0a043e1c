//! A reference model of one client of a group call, stepped along with the
//! real one: every operation is run to completion on both and everything the
//! client did is compared with what the model expects.
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    time::{Duration, Instant, SystemTime},
};

use hkdf::Hkdf;
use sha2::Sha256;
use x25519_dalek::{PublicKey, StaticSecret};

use harness::{Obs, Res, ensure, fail};
use mrp::MrpStream;
use prost::Message as _;
use ringrtc::{
    common::{CallEndReason as End, DataMode, units::DataRate},
    core::{
        crypto::Context,
        group_call::{ConnectionState as Conn, GroupCallKind, HeartbeatState, JoinState, RingId, VideoRequest},
    },
    lite::{
        http::ResponseStatus,
        sfu::{PeekDeviceInfo, PeekInfo, UserId},
    },
    protobuf::{
        group_call::{
            DeviceToDevice, DeviceToSfu, MrpHeader, RemoteMuteRequest, SfuToDevice,
            device_to_device::{Heartbeat, Leaving, MediaKey, Reaction},
            device_to_sfu::{
                AdminAction, GenericAdminAction, LeaveMessage, RaiseHand, VideoRequestMessage, video_request_message::VideoRequest as WireRequest,
            },
            sfu_to_device::{
                CurrentDevices, DeviceJoinedOrLeft, PeekInfo as WirePeek, RaisedHands, Removed, Speaker, peek_info::PeekDeviceInfo as WireDevice,
            },
        },
        signaling::call_message::{ring_intention, ring_response},
    },
    webrtc::sim::sdp_observer::group_descriptions::Description,
    webrtc::{peer_connection::SendRates, peer_connection_observer::IceConnectionState as Ice},
};
use serde::{Deserialize, Serialize};

use crate::group::*;

/// Devices which can be in the call; number 0 is the client's own.
pub const N: u8 = 12;
pub fn id(dev: u8) -> u32 {
    16 * ((dev % N) as u32 + 1)
}
/// Users 0 (with another device), 1 and 2 have two devices each.
pub fn owner(dev: u8) -> u8 {
    match dev % N {
        0 | 1 => 0,
        2 | 3 => 1,
        4 | 5 => 2,
        d => d - 3,
    }
}
const ME: u32 = 16;
const ERAS: [&str; 2] = ["1111111111111111", "an era"];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
    /// The answer to the oldest or newest request.
    Reply(bool),
    /// Sent by the SFU without having been asked.
    Push,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sfu {
    Speaker(u8, i8),
    Forward(Vec<(u8, u16)>),
    /// Whose hands are raised, and how far the acknowledged number is from ours.
    Hands(u16, i8, bool),
    Hint,
    Garbled,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Connect,
    Join,
    JoinReply { pending: bool, creator: u8, weak: bool, era: bool },
    JoinFail(bool),
    Leave,
    Disconnect,
    Ice(u8),
    /// Some devices come, go, become unknown or start to wait; whether the
    /// own device is in the call; another order; a new era.
    Peek { toggle: u16, unknown: u16, waiting: u16, me: Option<bool>, turn: u8, era: bool, via: Via },
    PeekFail,
    Proof,
    Members(u16),
    Key { dev: u8, forged: bool, bad: u8 },
    /// The device starts to use another key.
    Rekey(u8),
    LeavingSig { dev: u8, forged: bool, elsewhere: bool },
    Beat { dev: u8, step: i8, bits: u8, by: Option<u8> },
    LeavingRtp(u8),
    React(u8, u16),
    MuteReq(u8, u8),
    Sfu(Sfu),
    /// Several messages sent reliably, arriving in this order (and again),
    /// and into how many parts each is broken.
    Reliable(Vec<(Sfu, u8)>, Vec<u8>),
    Removed,
    Frame(u8, u8),
    SetAudio(bool),
    MutedBy(u8),
    SetVideo(bool),
    SetPresenting(bool),
    SetSharing(bool),
    SendReact(u16),
    Raise(bool),
    AskMute(u8),
    Want(Vec<(u8, u16, u16)>, u16),
    Mode(u8),
    Ring,
    RingId(i64),
    Resend,
    Admin(u8, u8),
    Other(bool),
    Wait(u16),
    /// Count for a few seconds what is said again and again.
    Count,
    /// Disconnect (or leave, or lose the connection), followed at once by other calls.
    Quit(u8, Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub link: bool,
    pub uuid: bool,
    pub ring: Option<i64>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum What {
    /// The key in use, the one that comes next, or some other one.
    Key(u8),
    Leaving,
    Ring(i64),
    Cancel(i64),
    Accept(i64),
    Unknown(String),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Target {
    One(UserId),
    Some(BTreeSet<UserId>),
    All,
}
type Sig = (What, Target, bool);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Req {
    NeedsProof,
    Never,
    Asked { again: bool },
    Done,
    Failed,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum J {
    No,
    Joining,
    Pending,
    Joined,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ringing {
    Unknown,
    Permitted(i64),
    Wants,
    Sent(i64),
    NotPermitted,
}
#[derive(Clone, Debug, Default)]
struct R {
    user: UserId,
    keys: bool,
    beat: HeartbeatState,
    beat_ts: u32,
    spoke: u64,
    leaving: bool,
    forwarding: Option<bool>,
    server_h: u16,
    decoded: Option<u32>,
    pending: bool,
    requesters: BTreeSet<u32>,
}
impl R {
    fn recalc(&mut self) {
        self.pending = self.server_h as u32 > self.decoded.unwrap_or(0);
    }
}
type Snap = BTreeMap<u32, R>;

#[derive(Default)]
struct Exp {
    conn: Vec<Conn>,
    join: Vec<JoinState>,
    peek: Vec<(PeekInfo, BTreeSet<UserId>)>,
    remote: Vec<(Snap, Why)>,
    rates: Vec<SendRates>,
    sigs: Vec<Sig>,
    observed: Vec<(u32, u32)>,
    hands: Vec<Vec<u32>>,
    proofs: usize,
    asks: usize,
    joins: usize,
    peeks: usize,
    sfu_proofs: usize,
    sfu_members: Vec<BTreeSet<UserId>>,
    cast: Vec<DeviceToDevice>,
    to_sfu: Vec<DeviceToSfu>,
    mute: Option<u32>,
    reactions: Vec<(u32, String)>,
    rotates: bool,
    ended: Option<End>,
}

pub struct Model {
    rig: Rig,
    link: bool,
    uuid: bool,
    ring_in: Option<i64>,
    conn: Conn,
    join: J,
    started_pc: bool,
    other: bool,
    req: Req,
    roster: BTreeSet<u8>,
    unknown: BTreeSet<u8>,
    waiting: Vec<u8>,
    era: bool,
    last_peek: Option<PeekInfo>,
    members: BTreeSet<UserId>,
    pend: (usize, BTreeSet<UserId>),
    known: BTreeSet<UserId>,
    resolves: Option<BTreeSet<UserId>>,
    remotes: BTreeMap<u32, R>,
    added: BTreeMap<u32, SystemTime>,
    slots: Vec<u32>,
    hb: HeartbeatState,
    rates: SendRates,
    rec: bool,
    out: bool,
    play: bool,
    incoming: Option<bool>,
    ringing: Ringing,
    stored: Vec<(UserId, u8, u8)>,
    generation: [u8; N as usize],
    devices: Vec<Context>,
    heard: BTreeSet<u8>,
    listener: Context,
    rotation: Option<Instant>,
    next_secret: Option<Vec<u8>>,
    hands: Vec<u32>,
    hand_seq: u32,
    hand: bool,
    hand_open: bool,
    reactions: VecDeque<(u32, String)>,
    mute: BTreeSet<Option<u32>>,
    fwd: BTreeMap<u32, u16>,
    speaker_ts: u32,
    beat_ts: u32,
    speech: u64,
    video: Option<(Vec<(u32, u16, u16)>, u16)>,
    on_demand_used: bool,
    max_kbps: u32,
    admin_seq: Option<u64>,
    admin_sent: BTreeMap<u64, Vec<u8>>,
    seqs: [u32; 2],
    sfu_stream: MrpStream<(), ()>,
    sfu_ts: u32,
    cast_ts: u32,
    reliable: u64,
    acked: u64,
    t0: Instant,
    exp: Exp,
    over: bool,
    /// how the connection must have been set up: local and remote
    setup: Option<[Description; 2]>,
    unheard: u8,
    /// Senders who pretend to be other people's devices.
    forgers: BTreeMap<u8, Context>,
    /// How many descriptions of the connection have been looked at.
    described: usize,
    host: bool,
    pub labels: BTreeSet<&'static str>,
}

const ALONE: SendRates = SendRates { min: None, start: None, max: Some(DataRate::from_kbps(1)) };

fn key_of(dev: u8) -> [u8; 32] {
    [dev % N + 1; 32]
}

/// A frame in the format of a call.
fn sound(from: &mut Context) -> Vec<u8> {
    let mut data = b"some sound".to_vec();
    let mut mac = [0u8; 16];
    let (ratchet, frame) = from.encrypt(&mut data, &mut mac).unwrap();
    data.push(ratchet);
    data.extend((frame as u32).to_be_bytes());
    data.extend(mac);
    data
}

impl Model {
    fn new(c: &Case) -> Model {
        let kind = if c.link { GroupCallKind::CallLink } else { GroupCallKind::SignalGroup };
        let rig = Rig::new(Start { kind, me: ME, uuid: c.uuid.then(|| user(0)), ring: c.ring.map(RingId::from), link: None });
        let mut listener = Context::new([0; 32]);
        let (n, key) = rig.client.verif_send_key();
        listener.add_receive_secret(ME, n, key);
        Model {
            link: c.link,
            uuid: c.uuid,
            ring_in: c.ring,
            conn: Conn::NotConnected,
            join: J::No,
            started_pc: false,
            other: false,
            req: if c.link { Req::Never } else { Req::NeedsProof },
            roster: Default::default(),
            unknown: Default::default(),
            waiting: vec![],
            era: false,
            last_peek: None,
            members: Default::default(),
            pend: Default::default(),
            known: Default::default(),
            resolves: None,
            remotes: Default::default(),
            added: Default::default(),
            slots: vec![],
            hb: Default::default(),
            rates: Default::default(),
            rec: false,
            out: false,
            play: false,
            incoming: None,
            ringing: Ringing::Unknown,
            stored: vec![],
            generation: [0; N as usize],
            devices: (0..N).map(|d| Context::new(key_of(d))).collect(),
            heard: Default::default(),
            listener,
            rotation: None,
            next_secret: None,
            hands: vec![],
            hand_seq: 0,
            hand: false,
            hand_open: false,
            reactions: Default::default(),
            mute: [None].into(),
            fwd: Default::default(),
            speaker_ts: 0,
            beat_ts: 0,
            speech: 0,
            video: None,
            on_demand_used: false,
            max_kbps: 20_000,
            admin_seq: None,
            admin_sent: Default::default(),
            seqs: [1, 1],
            sfu_stream: MrpStream::default(),
            sfu_ts: 0,
            cast_ts: 0,
            reliable: 0,
            acked: 0,
            t0: Instant::now(),
            exp: Default::default(),
            over: false,
            setup: None,
            unheard: 1,
            forgers: Default::default(),
            described: 0,
            host: false,
            labels: Default::default(),
            rig,
        }
    }
    /// Whether things that depend on time may have happened.
    fn late(&self) -> bool {
        self.t0.elapsed() > Duration::from_millis(1700)
    }
    fn rotation_late(&self) -> bool {
        self.rotation.is_some_and(|t| t.elapsed() > Duration::from_millis(4500))
    }
    fn in_call(&self) -> bool {
        matches!(self.join, J::Pending | J::Joined)
    }
    fn join_state(&self) -> JoinState {
        match self.join {
            J::No => JoinState::NotJoined(self.ring_in.map(RingId::from)),
            J::Joining => JoinState::Joining,
            J::Pending => JoinState::Pending(ME),
            J::Joined => JoinState::Joined(ME),
        }
    }

    // What the client does.

    fn ask_devices(&mut self) {
        self.exp.peeks += 1;
        self.req = Req::Asked { again: false };
    }
    fn want_devices(&mut self) {
        match self.req {
            Req::Never | Req::Done => self.ask_devices(),
            Req::Asked { .. } => self.req = Req::Asked { again: true },
            Req::NeedsProof | Req::Failed => {}
        }
    }
    fn set_join(&mut self, j: J) {
        self.join = j;
        self.exp.join.push(self.join_state());
    }
    fn set_conn(&mut self, c: Conn) {
        self.conn = c;
        self.exp.conn.push(c);
    }
    fn sig(&mut self, what: What, to: Target, urgent: bool) {
        self.exp.sigs.push((what, to, urgent));
    }
    /// To these users: ours apart, the others together if there are several.
    fn sig_users(&mut self, what: What, mut to: BTreeSet<UserId>) {
        let own = self.uuid && to.remove(&user(0));
        if to.len() > 1 && !self.link {
            self.sig(what.clone(), Target::Some(to), false);
        } else {
            for u in to {
                self.sig(what.clone(), Target::One(u), false);
            }
        }
        if own {
            self.sig(what, Target::One(user(0)), false);
        }
    }
    fn set_rates(&mut self, r: SendRates) {
        if self.rates == r {
            return;
        }
        let alone = r == ALONE;
        (self.rec, self.out, self.play) = (!alone, !alone, !alone);
        self.rates = r.clone();
        self.exp.rates.push(r);
    }
    fn rates_for(&self, remotes: usize) -> SendRates {
        let max = |kbps| SendRates { max: Some(DataRate::from_kbps(kbps)), ..Default::default() };
        if remotes == 0 {
            ALONE
        } else if self.hb.sharing_screen == Some(true) {
            SendRates {
                min: Some(DataRate::from_kbps(500)),
                start: Some(DataRate::from_kbps(1000)),
                max: Some(DataRate::from_kbps(2000)),
            }
        } else if remotes < 8 {
            max(1000)
        } else {
            max(671)
        }
    }
    fn heartbeat(&mut self) {
        if self.join == J::Joined {
            self.exp.cast.push(self.heartbeat_msg());
        }
    }
    fn heartbeat_msg(&self) -> DeviceToDevice {
        let h = &self.hb;
        DeviceToDevice {
            heartbeat: Some(Heartbeat {
                audio_muted: h.audio_muted,
                video_muted: h.video_muted,
                presenting: h.presenting,
                sharing_screen: h.sharing_screen,
                muted_by_demux_id: h.muted_by_demux_id,
            }),
            ..Default::default()
        }
    }
    fn video_msg(&self) -> Option<DeviceToSfu> {
        let (want, speaker) = self.video.as_ref()?;
        Some(DeviceToSfu {
            video_request: Some(VideoRequestMessage {
                max_kbps: Some(self.max_kbps),
                requests: want
                    .iter()
                    .filter(|(d, _, _)| self.remotes.contains_key(d))
                    .map(|&(d, w, h)| WireRequest { demux_id: Some(d), height: Some(w.min(h) as u32) })
                    .collect(),
                active_speaker_height: Some(*speaker as u32),
            }),
            ..Default::default()
        })
    }
    fn hand_msg(&self) -> DeviceToSfu {
        DeviceToSfu { raise_hand: Some(RaiseHand { raise: Some(self.hand), seqnum: Some(self.hand_seq) }), ..Default::default() }
    }
    fn remote_changed(&mut self, why: Why) {
        self.exp.remote.push((self.remotes.clone(), why));
    }
    fn leave(&mut self) {
        if let Ringing::Sent(r) = self.ringing {
            self.sig(What::Cancel(r), Target::All, true);
        }
        match self.join {
            J::No => return,
            J::Joining => {}
            J::Pending | J::Joined => {
                if self.join == J::Joined {
                    self.exp.cast.push(DeviceToDevice { leaving: Some(Leaving::default()), ..Default::default() });
                }
                self.sig_users(What::Leaving, self.members.clone());
                let bye = DeviceToSfu { leave: Some(LeaveMessage {}), ..Default::default() };
                self.exp.to_sfu.extend([bye.clone(), bye]);
            }
        }
        self.out = false;
        self.incoming = Some(false);
        self.ring_in = None;
        self.set_join(J::No);
    }
    fn end(&mut self, why: End) {
        if self.join != J::No {
            self.leave();
        }
        if self.conn != Conn::NotConnected {
            self.exp.ended = Some(why);
        }
    }
    fn ring(&mut self) {
        match self.ringing {
            Ringing::Permitted(r) => {
                self.sig(What::Ring(r), Target::All, true);
                self.ringing = if self.remotes.is_empty() { Ringing::Sent(r) } else { Ringing::NotPermitted };
                self.labels.insert("rang");
            }
            Ringing::Unknown => self.ringing = Ringing::Wants,
            _ => {}
        }
    }
    fn key_received(&mut self, from: UserId, dev: u8, generation: u8) {
        match self.remotes.get_mut(&id(dev)) {
            Some(r) if r.user == from => {
                if generation == self.generation[dev as usize] {
                    self.heard.insert(dev);
                }
                if !std::mem::replace(&mut r.keys, true) {
                    self.remote_changed(Why::Key(id(dev)));
                }
            }
            Some(_) => {
                self.labels.insert("a key for somebody else's device");
            }
            None => {
                if self.stored.is_empty() && !self.link {
                    self.exp.asks += 1;
                }
                self.stored.push((from, dev, generation));
                self.labels.insert("a key that came before its device");
            }
        }
    }
    fn peeked(&mut self, p: PeekInfo) {
        let first = self.last_peek.is_none();
        let again = self.req == Req::Asked { again: true };
        self.req = Req::Done;
        let old_users = std::mem::take(&mut self.members);
        let new_users: BTreeSet<UserId> = p.devices.iter().filter_map(|d| d.user_id.clone()).collect();
        let pend = (p.pending_devices.len(), p.pending_devices.iter().filter_map(|d| d.user_id.clone()).collect::<BTreeSet<_>>());
        let old_era = self.last_peek.as_ref().and_then(|p| p.era_id.clone());
        if first || old_users != new_users || old_era != p.era_id || pend != self.pend {
            self.exp.peek.push((p.clone(), new_users.clone()));
        }
        if self.in_call() && self.started_pc {
            let mut here = false;
            let mut now = BTreeMap::new();
            let mut added = BTreeSet::new();
            for d in &p.devices {
                if d.demux_id == ME {
                    here = true;
                    continue;
                }
                let Some(u) = &d.user_id else { continue };
                let r = match self.remotes.remove(&d.demux_id) {
                    Some(r) if r.user == *u => r,
                    _ => {
                        added.insert(d.demux_id);
                        self.added.remove(&d.demux_id);
                        let mut r = R { user: u.clone(), ..Default::default() };
                        if let Some(&h) = self.fwd.get(&d.demux_id) {
                            r.forwarding = Some(true);
                            r.server_h = h;
                            r.recalc();
                            self.labels.insert("video was forwarded before the device was known");
                        }
                        r
                    }
                };
                now.insert(d.demux_id, r);
            }
            let gone = !self.remotes.is_empty();
            self.remotes = now;
            if gone || !added.is_empty() {
                self.remote_changed(Why::Ids);
            }
            if here && self.join == J::Pending {
                self.set_join(J::Joined);
                self.labels.insert("let in");
            }
            let mut rotating = self.rotation.is_some();
            let users: BTreeSet<UserId> = added.iter().map(|d| self.remotes[d].user.clone()).collect();
            if !users.is_empty() {
                self.sig_users(What::Key(0), users.clone());
                if rotating {
                    self.sig_users(What::Key(1), users);
                    self.labels.insert("joined while the key was about to change");
                }
            }
            if old_users.difference(&new_users).next().is_some() && !rotating {
                rotating = true;
                let all = self.remotes.values().map(|r| r.user.clone()).collect();
                self.sig_users(What::Key(1), all);
                self.rotation = Some(Instant::now());
                self.exp.rotates = true;
                self.labels.insert("the key changed because somebody left");
            }
            let _ = rotating;
            for (u, d, g) in std::mem::take(&mut self.stored) {
                self.key_received(u, d, g);
            }
            if here {
                self.set_rates(self.rates_for(self.remotes.len()));
            }
            if !self.remotes.is_empty() && matches!(self.ringing, Ringing::Sent(_)) {
                self.ringing = Ringing::NotPermitted;
                self.labels.insert("somebody came after the ring");
            }
        }
        self.last_peek = Some(p);
        self.members = new_users;
        self.pend = pend;
        if again {
            self.want_devices();
        }
    }

    // What happens to the client.

    fn peek_info(&self, push: bool) -> PeekInfo {
        let known = |d: u8| {
            let u = user(owner(d));
            if self.unknown.contains(&d) && d != 0 {
                return None;
            }
            if push && self.resolves.as_ref().is_some_and(|k| !k.contains(&u)) {
                return None;
            }
            Some(u)
        };
        let dev = |&d: &u8| PeekDeviceInfo { demux_id: id(d), user_id: known(d) };
        PeekInfo {
            devices: self.roster.iter().map(dev).collect(),
            pending_devices: self.waiting.iter().map(dev).collect(),
            creator: None,
            era_id: Some(ERAS[self.era as usize].into()),
            max_devices: Some(40),
            call_link_state: None,
        }
    }
    fn wire_peek(&self, p: &PeekInfo) -> WirePeek {
        let dev = |d: &PeekDeviceInfo| {
            let n = (d.demux_id / 16 - 1) as u8;
            WireDevice {
                demux_id: Some(d.demux_id),
                opaque_user_id: Some(if self.unknown.contains(&n) && n != 0 { "?".into() } else { opaque(owner(n)) }),
            }
        };
        WirePeek {
            era_id: p.era_id.clone(),
            max_devices: p.max_devices,
            creator: None,
            devices: p.devices.iter().map(dev).collect(),
            pending_devices: p.pending_devices.iter().map(dev).collect(),
            call_link_state: None,
        }
    }
    fn from_sfu(&mut self, m: SfuToDevice) {
        self.sfu_ts += 1;
        self.rig.rtp(1, self.sfu_ts, &m.encode_to_vec());
    }
    /// A message of the SFU's and what it does.
    fn sfu_msg(&mut self, m: &Sfu, ts: u32) -> SfuToDevice {
        match m {
            Sfu::Speaker(d, step) => {
                let _ = step;
                let d = id(*d);
                if ts > self.speaker_ts {
                    self.speaker_ts = ts;
                    let latest = self.remotes.iter().filter(|(_, r)| r.spoke > 0).max_by_key(|(_, r)| r.spoke).map(|(d, _)| *d);
                    if let Some(r) = self.remotes.get_mut(&d)
                        && latest != Some(d)
                    {
                        self.speech += 1;
                        r.spoke = self.speech;
                        self.labels.insert("speaker changed");
                        self.remote_changed(Why::Speaker(d));
                    }
                }
                SfuToDevice { speaker: Some(Speaker { demux_id: Some(d) }), ..Default::default() }
            }
            Sfu::Forward(v) => {
                let map: BTreeMap<u32, u16> = v.iter().map(|&(d, h)| (id(d), h)).collect();
                if map != self.fwd {
                    for (d, r) in &mut self.remotes {
                        r.forwarding = Some(map.contains_key(d));
                        r.server_h = map.get(d).copied().unwrap_or(0);
                        if r.forwarding == Some(false) {
                            r.decoded = None;
                        }
                        r.recalc();
                    }
                    self.fwd = map;
                    self.remote_changed(Why::Forwarded);
                }
                SfuToDevice {
                    current_devices: Some(CurrentDevices {
                        demux_ids_with_video: v.iter().map(|&(d, _)| id(d)).collect(),
                        all_demux_ids: vec![],
                        allocated_heights: v.iter().map(|&(_, h)| h as u32).collect(),
                    }),
                    ..Default::default()
                }
            }
            Sfu::Hands(mask, ack, zero) => {
                let hands: Vec<u32> = (0..N).filter(|d| mask >> d & 1 == 1).map(id).collect();
                let seq = if *zero { 0 } else { self.hand_seq.saturating_add_signed(*ack as i32) };
                let tell = if seq == 0 {
                    self.hand_seq == 0 && self.hands != hands
                } else if seq >= self.hand_seq {
                    self.hand_seq = seq;
                    std::mem::take(&mut self.hand_open) || self.hands != hands
                } else {
                    false
                };
                if tell {
                    self.hands = hands.clone();
                    self.exp.hands.push(hands.clone());
                    self.labels.insert("hands changed");
                }
                SfuToDevice {
                    raised_hands: Some(RaisedHands { demux_ids: hands, seqnums: vec![], target_seqnum: Some(seq) }),
                    ..Default::default()
                }
            }
            Sfu::Hint => {
                self.want_devices();
                SfuToDevice { device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: None }), ..Default::default() }
            }
            Sfu::Garbled => {
                self.want_devices();
                let devices = vec![WireDevice { demux_id: None, opaque_user_id: Some(opaque(1)) }];
                SfuToDevice {
                    device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: Some(WirePeek { devices, ..Default::default() }) }),
                    ..Default::default()
                }
            }
        }
    }
    /// Something sent by another device to all; false if it can't be read.
    fn cast(&mut self, dev: u8, ts: u32, m: DeviceToDevice) -> bool {
        let mut data = m.encode_to_vec();
        let mut mac = [0u8; 16];
        let (ratchet, frame) = self.devices[dev as usize].encrypt(&mut data, &mut mac).unwrap();
        data.push(ratchet);
        data.extend((frame as u32).to_be_bytes());
        data.extend(mac);
        self.rig.rtp(id(dev) + 0xD, ts, &data);
        self.heard.contains(&dev)
    }
    fn known_device(&mut self, dev: u8) {
        if !self.remotes.contains_key(&id(dev)) {
            self.want_devices();
        }
    }

    /// Runs the operation; false if there was nothing to do.
    fn apply(&mut self, op: &Op) -> bool {
        let client = self.rig.client.clone();
        match op {
            Op::Connect => {
                client.connect();
                if self.conn == Conn::NotConnected {
                    self.set_conn(Conn::Connecting);
                    if !self.link {
                        self.exp.proofs += 1;
                        self.exp.asks += 1;
                    }
                    if self.req == Req::Never {
                        self.ask_devices();
                    }
                }
            }
            Op::Join => {
                if self.join == J::No && self.started_pc {
                    return false;
                }
                client.join();
                if self.join == J::No {
                    if self.other {
                        self.labels.insert("busy with another call");
                        self.end(End::CallManagerIsBusy);
                    } else {
                        self.set_join(J::Joining);
                        if let (Some(r), true) = (self.ring_in, self.uuid) {
                            self.sig(What::Accept(r), Target::One(user(0)), true);
                            self.labels.insert("accepted a ring");
                        }
                        if !self.link {
                            self.exp.proofs += 1;
                        }
                        self.exp.joins += 1;
                    }
                }
            }
            Op::JoinReply { pending, creator, weak, era } => {
                if self.conn == Conn::NotConnected {
                    return false;
                }
                let Some(asked) = self.rig.asked.lock().unwrap().joins.pop() else { return false };
                let state = if *pending { JoinState::Pending(ME) } else { JoinState::Joined(ME) };
                let who = match creator % 3 {
                    0 => None,
                    1 => Some(user(0)),
                    _ => Some(user(3)),
                };
                let secret = StaticSecret::from([asked.key[0]; 32]);
                let key = if *weak { [0; 32] } else { *PublicKey::from(&secret).as_bytes() };
                let host = *creator < 2;
                let joined = self.rig.joined(state, who.clone(), ERAS[*era as usize], key, host);
                client.on_sfu_client_join_attempt_completed(Ok(joined));
                if self.join != J::Joining {
                    self.labels.insert("left before the answer to joining came");
                    return true;
                }
                if *weak {
                    self.labels.insert("keys refused");
                    self.end(End::FailedToNegotiatedSrtpKeys);
                    return true;
                }
                self.started_pc = true;
                let shared = secret.diffie_hellman(&PublicKey::from(asked.key));
                let mut keys = [0u8; 56];
                Hkdf::<Sha256>::new(Some(&[0; 32]), shared.as_bytes())
                    .expand(b"Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDFextra", &mut keys)
                    .unwrap();
                let description = |ice: [&str; 2], keys: &[u8]| Description {
                    ice_ufrag: ice[0].into(),
                    ice_pwd: ice[1].into(),
                    key: keys[..16].to_vec(),
                    salt: keys[16..].to_vec(),
                    local: ME,
                    remotes: vec![],
                };
                self.setup = Some([
                    description([&asked.ufrag, &asked.pwd], &keys[..28]),
                    description(["sfu ufrag", "sfu pwd"], &keys[28..]),
                ]);
                self.host = host;
                self.set_rates(ALONE);
                self.want_devices();
                self.join = if *pending { J::Pending } else { J::Joined };
                if let Some(p) = self.last_peek.clone() {
                    self.peeked(p);
                    if self.remotes.is_empty() {
                        self.remote_changed(Why::Ids);
                    }
                }
                self.exp.join.push(self.join_state());
                if let Some(w) = who {
                    let wanted = self.ringing == Ringing::Wants;
                    self.ringing = if self.uuid && w == user(0) {
                        Ringing::Permitted(RingId::from_era_id(ERAS[*era as usize]).into())
                    } else {
                        Ringing::NotPermitted
                    };
                    if wanted {
                        self.ring();
                    }
                }
            }
            Op::JoinFail(full) => {
                let Some(_) = self.rig.asked.lock().unwrap().joins.pop() else { return false };
                client.verif_join_failed(*full);
                self.labels.insert("joining failed");
                self.end(if *full { End::HasMaxDevices } else { End::SfuClientFailedToJoin });
            }
            Op::Leave => {
                client.leave();
                self.leave();
                self.labels.insert("left");
            }
            Op::Disconnect => {
                client.disconnect();
                self.end(End::DeviceExplicitlyDisconnected);
            }
            Op::Ice(n) => {
                if !self.started_pc {
                    return false;
                }
                let s = [Ice::Checking, Ice::Connected, Ice::Completed, Ice::Disconnected, Ice::Failed, Ice::Closed][*n as usize % 6];
                client.verif_observer(move |o| {
                    let _ = o.handle_ice_connection_state_changed(s);
                });
                match (self.conn, s) {
                    (Conn::Connecting, Ice::Disconnected | Ice::Closed | Ice::Failed) => self.end(End::IceFailedWhileConnecting),
                    (Conn::Connecting | Conn::Reconnecting, Ice::Connected | Ice::Completed) => self.set_conn(Conn::Connected),
                    (Conn::Connected, Ice::Checking | Ice::Disconnected) => {
                        self.set_conn(Conn::Reconnecting);
                        self.labels.insert("reconnecting");
                    }
                    (_, Ice::Failed | Ice::Closed) => self.end(End::IceFailedAfterConnected),
                    _ => {}
                }
            }
            Op::Peek { toggle, unknown, waiting, me, turn, era, via } => {
                if let Via::Reply(_) = via
                    && self.rig.asked.lock().unwrap().peeks.is_empty()
                {
                    return false;
                }
                for d in 1..N {
                    if toggle >> d & 1 == 1 && !self.roster.remove(&d) {
                        self.roster.insert(d);
                    }
                    if unknown >> d & 1 == 1 && !self.unknown.remove(&d) {
                        self.unknown.insert(d);
                    }
                }
                self.waiting = (1..N).filter(|d| waiting >> d & 1 == 1 && !self.roster.contains(d)).collect();
                match me {
                    Some(true) => {
                        self.roster.insert(0);
                    }
                    Some(false) => {
                        self.roster.remove(&0);
                    }
                    None => {}
                }
                if *era {
                    self.era = !self.era;
                }
                let mut p = self.peek_info(*via == Via::Push);
                let n = p.devices.len().max(1);
                p.devices.rotate_left(*turn as usize % n);
                match via {
                    Via::Reply(oldest) => {
                        let mut a = self.rig.asked.lock().unwrap();
                        let cb = if *oldest { a.peeks.pop_front() } else { a.peeks.pop_back() };
                        drop(a);
                        cb.unwrap()(Ok(p.clone()));
                    }
                    Via::Push => {
                        let w = self.wire_peek(&p);
                        self.from_sfu(SfuToDevice {
                            device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: Some(w) }),
                            ..Default::default()
                        });
                    }
                }
                self.peeked(p);
            }
            Op::PeekFail => {
                let Some(cb) = self.rig.asked.lock().unwrap().peeks.pop_front() else { return false };
                cb(Err(ResponseStatus::REQUEST_FAILED));
                self.req = Req::Failed;
            }
            Op::Proof => {
                client.set_membership_proof(b"proof".to_vec());
                self.exp.sfu_proofs += 1;
                if self.req == Req::NeedsProof {
                    self.ask_devices();
                }
            }
            Op::Members(mask) => {
                let who: Vec<u8> = (0..9).filter(|n| mask >> n & 1 == 1).collect();
                client.set_group_members(who.iter().map(|&n| member(n)).collect());
                let set: BTreeSet<UserId> = who.into_iter().map(user).collect();
                if set != self.known {
                    self.known = set.clone();
                    self.resolves = Some(set.clone());
                    self.exp.sfu_members.push(set);
                    self.want_devices();
                }
            }
            Op::Key { dev, forged, bad } => {
                let dev = dev % N;
                if dev == 0 {
                    return false;
                }
                let from = user(if *forged { (owner(dev) + 1) % 9 } else { owner(dev) });
                let (n, s) = if *forged {
                    self.forgers.entry(dev).or_insert_with(|| Context::new([100 + dev; 32])).send_state()
                } else {
                    self.devices[dev as usize].send_state()
                };
                let key = MediaKey {
                    demux_id: Some(id(dev)),
                    ratchet_counter: Some(if *bad == 1 { n as u32 + 256 } else { n as u32 }),
                    secret: Some(if *bad == 2 { s[1..].to_vec() } else { s.to_vec() }),
                };
                client.on_signaling_message_received(from.clone(), DeviceToDevice { group_id: Some(GROUP.to_vec()), media_key: Some(key), ..Default::default() });
                if *bad == 2 {
                    return true;
                }
                if *bad != 1 {
                    self.key_received(from, dev, self.generation[dev as usize]);
                }
                self.known_device(dev);
            }
            Op::Rekey(dev) => {
                let d = (*dev % N) as usize;
                self.generation[d] += 1;
                let mut key = key_of(d as u8);
                key[1] = 100 + self.generation[d];
                self.devices[d].reset_send_ratchet(key);
                if self.heard.remove(&(d as u8)) {
                    self.labels.insert("somebody's key changed");
                }
            }
            Op::LeavingSig { dev, forged, elsewhere } => {
                let from = user(if *forged { (owner(*dev) + 1) % 9 } else { owner(*dev) });
                let group = if *elsewhere { b"another".to_vec() } else { GROUP.to_vec() };
                client.on_signaling_message_received(
                    from.clone(),
                    DeviceToDevice { group_id: Some(group), leaving: Some(Leaving { demux_id: Some(id(*dev)) }), ..Default::default() },
                );
                if !*elsewhere && self.remotes.get(&id(*dev)).is_some_and(|r| r.user == from) {
                    self.leaving(*dev);
                }
            }
            Op::LeavingRtp(dev) => {
                let dev = dev % N;
                if dev == 0 {
                    return false;
                }
                self.cast_ts += 1;
                if self.cast(dev, self.cast_ts, DeviceToDevice { leaving: Some(Leaving::default()), ..Default::default() }) {
                    self.leaving(dev);
                }
                self.known_device(dev);
            }
            Op::Beat { dev, step, bits, by } => {
                let dev = dev % N;
                if dev == 0 {
                    return false;
                }
                let ts = self.beat_ts.saturating_add_signed(*step as i32);
                self.beat_ts = self.beat_ts.max(ts);
                let b = |n: u8| match bits >> (2 * n) & 3 {
                    0 => Some(false),
                    1 | 2 => Some(true),
                    _ => None,
                };
                let beat = Heartbeat {
                    audio_muted: b(0),
                    video_muted: b(1),
                    presenting: b(2),
                    sharing_screen: b(3),
                    muted_by_demux_id: by.map(id),
                };
                if self.cast(dev, ts, DeviceToDevice { heartbeat: Some(beat), ..Default::default() })
                    && let Some(r) = self.remotes.get_mut(&id(dev))
                    && ts > r.beat_ts
                {
                    r.beat_ts = ts;
                    let new = HeartbeatState::from(beat);
                    if new != r.beat {
                        if new.video_muted == Some(true) {
                            r.decoded = None;
                            r.recalc();
                        }
                        if new.audio_muted == Some(false) && r.beat.audio_muted != Some(false) {
                            r.requesters.clear();
                        }
                        if let Some(by) = new.muted_by_demux_id
                            && r.beat.muted_by_demux_id != Some(by)
                            && new.audio_muted == Some(true)
                            && r.beat.audio_muted == Some(false)
                            && r.requesters.contains(&by)
                        {
                            self.exp.observed.push((by, id(dev)));
                            self.labels.insert("saw somebody be muted");
                        }
                        r.beat = new;
                        self.remote_changed(Why::Beat(id(dev)));
                    } else {
                        self.labels.insert("heartbeat with nothing new");
                    }
                }
                self.known_device(dev);
            }
            Op::React(dev, len) => {
                let dev = dev % N;
                if dev == 0 {
                    return false;
                }
                self.cast_ts += 1;
                let value = "x".repeat(*len as usize);
                let m = DeviceToDevice { reaction: Some(Reaction { value: Some(value.clone()) }), ..Default::default() };
                if self.cast(dev, self.cast_ts, m) && (1..=256).contains(len) {
                    self.exp.reactions.push((id(dev), value));
                    self.labels.insert("reaction");
                }
                self.known_device(dev);
            }
            Op::MuteReq(dev, target) => {
                let dev = dev % N;
                if dev == 0 {
                    return false;
                }
                self.cast_ts += 1;
                let target = id(*target);
                let m = DeviceToDevice { remote_mute_request: Some(RemoteMuteRequest { target_demux_id: Some(target) }), ..Default::default() };
                if self.cast(dev, self.cast_ts, m) && self.in_call() {
                    if target == ME {
                        self.exp.mute = Some(id(dev));
                        self.labels.insert("asked to mute");
                    } else if let Some(r) = self.remotes.get_mut(&target)
                        && r.beat.audio_muted != Some(true)
                    {
                        r.requesters.insert(id(dev));
                    }
                }
                self.known_device(dev);
            }
            Op::Sfu(m) => {
                let ts = match m {
                    Sfu::Speaker(_, step) => self.speaker_ts.saturating_add_signed(*step as i32).max(1),
                    _ => 1,
                };
                let msg = self.sfu_msg(m, ts);
                self.rig.rtp(1, ts, &msg.encode_to_vec());
            }
            Op::Reliable(msgs, order) => {
                let mut packets: Vec<(u32, SfuToDevice)> = vec![];
                for (m, parts) in msgs {
                    let ts = self.speaker_ts + 1;
                    let body = self.sfu_msg(m, ts);
                    let parts = (*parts as usize).clamp(1, 5);
                    let mut ready: Vec<SfuToDevice> = vec![];
                    if parts == 1 {
                        ready.push(body);
                    } else {
                        let bytes = body.encode_to_vec();
                        let size = bytes.len().div_ceil(parts).max(1);
                        ready.extend(bytes.chunks(size).map(|c| SfuToDevice { content: Some(c.to_vec()), ..Default::default() }));
                    }
                    let n = ready.len();
                    let broken = parts > 1;
                    for (i, p) in ready.into_iter().enumerate() {
                        let mut p = p;
                        self.sfu_stream
                            .try_send(|mut h| {
                                if i == 0 && broken {
                                    h.num_packets = Some(n as u32);
                                }
                                p.mrp_header = Some(MrpHeader { seqnum: h.seqnum, ack_num: None, num_packets: h.num_packets });
                                Ok(((), Instant::now()))
                            })
                            .unwrap();
                        self.reliable += 1;
                        packets.push((ts, p));
                    }
                    self.labels.insert(if broken { "message in parts" } else { "reliable message" });
                }
                // In some order, each at least once.
                let n = packets.len();
                let mut seq: Vec<usize> = order.iter().map(|&i| i as usize % n).collect();
                let missing: Vec<usize> = (0..n).filter(|i| !seq.contains(i)).collect();
                seq.extend(missing);
                for i in seq {
                    let (ts, p) = &packets[i];
                    self.rig.rtp(1, *ts, &p.encode_to_vec());
                }
            }
            Op::Removed => {
                self.from_sfu(SfuToDevice { removed: Some(Removed {}), ..Default::default() });
                self.labels.insert("removed");
                self.end(if self.join == J::Joined { End::RemovedFromCall } else { End::DeniedRequestToJoinCall });
            }
            Op::Frame(dev, h) => {
                let h = [0u32, 180, 240, 360, 480, 720][*h as usize % 6];
                client.verif_video_frame(id(*dev), h);
                if let Some(r) = self.remotes.get_mut(&id(*dev))
                    && r.decoded != Some(h)
                    && r.beat.video_muted != Some(true)
                {
                    r.decoded = Some(h);
                    let was = r.pending;
                    r.recalc();
                    if was != r.pending {
                        self.labels.insert("higher resolution arrived or is awaited");
                        self.remote_changed(Why::Resolution);
                    }
                }
            }
            Op::SetAudio(m) => {
                client.set_outgoing_audio_muted(*m);
                self.muted(*m, None);
            }
            Op::MutedBy(d) => {
                client.set_outgoing_audio_muted_remotely(id(*d));
                self.muted(true, Some(id(*d)));
            }
            Op::SetVideo(m) => {
                client.set_outgoing_video_muted(*m);
                self.hb.video_muted = Some(*m);
                self.heartbeat();
            }
            Op::SetPresenting(m) => {
                client.set_presenting(*m);
                self.hb.presenting = Some(*m);
                self.heartbeat();
            }
            Op::SetSharing(m) => {
                client.set_sharing_screen(*m);
                self.hb.sharing_screen = Some(*m);
                self.heartbeat();
                if self.join == J::Joined {
                    self.set_rates(self.rates_for(self.remotes.len()));
                }
                self.labels.insert("screen share");
            }
            Op::SendReact(len) => {
                let value = "y".repeat(*len as usize);
                client.react(value.clone());
                if self.join == J::Joined && (1..=256).contains(len) {
                    self.exp.cast.push(DeviceToDevice { reaction: Some(Reaction { value: Some(value) }), ..Default::default() });
                }
            }
            Op::Raise(up) => {
                client.raise_hand(*up);
                self.hand_seq += 1;
                self.hand = *up;
                self.hand_open = true;
                if self.in_call() {
                    self.exp.to_sfu.push(self.hand_msg());
                }
            }
            Op::AskMute(d) => {
                client.send_remote_mute_request(id(*d));
                if self.in_call() {
                    if id(*d) == ME {
                        return true;
                    }
                    if let Some(r) = self.remotes.get_mut(&id(*d))
                        && r.beat.audio_muted == Some(false)
                    {
                        r.requesters.insert(ME);
                    }
                }
                if self.join == J::Joined {
                    self.exp.cast.push(DeviceToDevice {
                        remote_mute_request: Some(RemoteMuteRequest { target_demux_id: Some(id(*d)) }),
                        ..Default::default()
                    });
                }
            }
            Op::Want(v, speaker) => {
                let v: Vec<(u32, u16, u16)> = v.iter().map(|&(d, w, h)| (id(d), w, h)).collect();
                client.request_video(
                    v.iter().map(|&(demux_id, width, height)| VideoRequest { demux_id, width, height, framerate: None }).collect(),
                    *speaker,
                );
                self.video = Some((v, *speaker));
                self.on_demand();
            }
            Op::Mode(n) => {
                let (mode, kbps) = match n % 3 {
                    0 => (DataMode::Low, 500),
                    1 => (DataMode::Normal, 20_000),
                    _ => (
                        DataMode::Custom { max_bitrate: DataRate::from_kbps(100), max_group_call_receive_rate: DataRate::from_kbps(*n as u64 * 10) },
                        *n as u32 * 10,
                    ),
                };
                client.set_data_mode(mode);
                self.max_kbps = kbps;
                self.on_demand();
            }
            Op::Ring => {
                client.ring(None);
                self.ring();
            }
            Op::RingId(n) => {
                client.provide_ring_id_if_absent(RingId::from(*n));
                if self.join == J::No && self.ring_in.is_none() {
                    self.ring_in = Some(*n);
                }
            }
            Op::Resend => {
                client.resend_media_keys();
                if self.in_call() {
                    let all: BTreeSet<UserId> = self.remotes.values().map(|r| r.user.clone()).collect();
                    self.sig_users(What::Key(0), all.clone());
                    if self.rotation.is_some() {
                        self.sig_users(What::Key(1), all);
                        self.labels.insert("asked for the keys while they were changing");
                    }
                }
            }
            Op::Admin(kind, dev) => {
                use AdminAction as A;
                let target = |d: u32| GenericAdminAction { target_demux_id: Some(d) };
                let u = user(owner(*dev));
                let waiting = self
                    .last_peek
                    .as_ref()
                    .and_then(|p| p.pending_devices.iter().find(|d| d.user_id.as_ref() == Some(&u)).map(|d| d.demux_id));
                let action = match kind % 4 {
                    0 => {
                        client.approve_user(u);
                        waiting.map(|d| A::Approve(target(d)))
                    }
                    1 => {
                        client.deny_user(u);
                        waiting.map(|d| A::Deny(target(d)))
                    }
                    2 => {
                        client.remove_client(id(*dev));
                        Some(A::Remove(target(id(*dev))))
                    }
                    _ => {
                        client.block_client(id(*dev));
                        Some(A::Block(target(id(*dev))))
                    }
                };
                if self.in_call() && self.admin_sent.len() < 60 {
                    if let Some(a) = action {
                        self.exp.to_sfu.push(DeviceToSfu { admin_action: Some(a), ..Default::default() });
                        self.labels.insert("admin action");
                    }
                } else if self.in_call() {
                    return false;
                }
            }
            Op::Other(b) => {
                if self.join != J::No {
                    return false;
                }
                self.other = *b;
                *self.rig.busy.lock().unwrap() = *b;
            }
            Op::Wait(_) | Op::Count | Op::Quit(..) => {}
        }
        true
    }
    fn on_demand(&mut self) {
        if self.in_call()
            && !self.on_demand_used
            && let Some(m) = self.video_msg()
        {
            self.exp.to_sfu.push(m);
        }
        self.on_demand_used = true;
    }
    fn muted(&mut self, m: bool, by: Option<u32>) {
        if m {
            if self.hb.audio_muted != Some(true) {
                self.hb.muted_by_demux_id = by;
            }
        } else {
            self.hb.muted_by_demux_id = None;
        }
        self.hb.audio_muted = Some(m);
        self.heartbeat();
    }
    fn leaving(&mut self, dev: u8) {
        if let Some(r) = self.remotes.get_mut(&id(dev))
            && !std::mem::replace(&mut r.leaving, true)
        {
            self.labels.insert("somebody is leaving");
            self.want_devices();
        }
    }

    // What was seen.

    fn read_cast(&mut self, payload: &[u8]) -> Option<DeviceToDevice> {
        for again in [false, true] {
            if again {
                let (n, key) = self.rig.client.verif_send_key();
                self.listener.add_receive_secret(ME, n, key);
            }
            if payload.len() < 21 {
                return None;
            }
            let (data, footer) = payload.split_at(payload.len() - 21);
            let mut data = data.to_vec();
            let frame = u32::from_be_bytes(footer[1..5].try_into().unwrap());
            let mac: [u8; 16] = footer[5..].try_into().unwrap();
            if self.listener.decrypt(ME, footer[0], frame as u64, &mut data, &mac).is_ok() {
                return DeviceToDevice::decode(&data[..]).ok();
            }
        }
        None
    }
    fn read_sig(&mut self, msg: &ringrtc::protobuf::signaling::CallMessage) -> What {
        let raw = format!("{msg:?}");
        if let Some(r) = &msg.ring_intention
            && r.group_id.as_deref() == Some(GROUP)
        {
            let n = r.ring_id.unwrap_or(0);
            return match r.r#type() {
                ring_intention::Type::Ring => What::Ring(n),
                ring_intention::Type::Cancelled => What::Cancel(n),
            };
        }
        if let Some(r) = &msg.ring_response
            && r.group_id.as_deref() == Some(GROUP)
            && r.r#type() == ring_response::Type::Accepted
        {
            return What::Accept(r.ring_id.unwrap_or(0));
        }
        if let Some(g) = &msg.group_call_message
            && g.group_id.as_deref() == Some(GROUP)
        {
            if let Some(k) = &g.media_key
                && k.demux_id == Some(ME)
                && let (Some(n), Some(s)) = (k.ratchet_counter, &k.secret)
            {
                let (now_n, now_s) = self.rig.client.verif_send_key();
                if n == now_n as u32 && s[..] == now_s[..] {
                    return What::Key(0);
                }
                if self.exp.rotates && self.next_secret.is_none() && n == 0 {
                    self.next_secret = Some(s.clone());
                }
                if n == 0 && self.next_secret.as_ref() == Some(s) {
                    return What::Key(1);
                }
                return What::Key(2);
            }
            if let Some(l) = &g.leaving
                && l.demux_id == Some(ME)
            {
                return What::Leaving;
            }
        }
        What::Unknown(raw)
    }

    fn check(&mut self, before: &Before, got: Vec<Ev>) -> Res {
        let exp = std::mem::take(&mut self.exp);
        self.exp.rotates = exp.rotates;
        self.reactions.extend(exp.reactions.iter().cloned());
        let mut conn = vec![];
        let mut join = vec![];
        let mut peek = vec![];
        let mut rates = vec![];
        let mut observed = vec![];
        let mut hands = vec![];
        let mut sigs: Vec<Sig> = vec![];
        let mut remote = vec![];
        let mut mutes = vec![];
        let mut sfu_members = vec![];
        let (mut proofs, mut asks, mut joins, mut peeks, mut sfu_proofs) = (0, 0, 0, 0, 0);
        let mut cast = exp.cast.iter();
        let mut to_sfu = exp.to_sfu.iter();
        let mut next_cast = cast.next();
        let mut next_to_sfu = to_sfu.next();
        for e in got {
            match e {
                Ev::AskProof => proofs += 1,
                Ev::AskMembers => asks += 1,
                Ev::SfuJoin => joins += 1,
                Ev::SfuPeek => peeks += 1,
                Ev::SfuProof(p) => {
                    ensure!(p == b"proof", "the SFU was given another proof");
                    sfu_proofs += 1
                }
                Ev::SfuMembers(m) => sfu_members.push(m),
                Ev::Conn(c) => conn.push(c),
                Ev::Join(j) => {
                    // Being told the same again doesn't matter.
                    if join.last() != Some(&j) {
                        join.push(j)
                    }
                }
                Ev::Rates(r) => rates.push(r),
                Ev::Peek(p, m) => peek.push((p, m)),
                Ev::Hands(h) => hands.push(h),
                Ev::ObservedMute(a, b) => observed.push((a, b)),
                Ev::MuteRequest(d) => mutes.push(d),
                Ev::Direct { to, msg, urgent } => {
                    let w = self.read_sig(&msg);
                    sigs.push((w, Target::One(to), urgent));
                }
                Ev::Group { group, msg, urgent, to } => {
                    ensure!(group == GROUP, "a message to another group");
                    let w = self.read_sig(&msg);
                    ensure!(!self.uuid || !to.contains(&user(0)), "a message to several users includes ourselves: {w:?} {to:?}");
                    sigs.push((w, if to.is_empty() { Target::All } else { Target::Some(to) }, urgent));
                }
                Ev::Adhoc { .. } => fail!("an ad-hoc message was sent without endorsements"),
                Ev::Endorsements(r) => fail!("told of endorsements: {r:?}"),
                Ev::Remote(d, why) => remote.push((d, why)),
                Ev::Reactions(r) => {
                    ensure!(!r.is_empty(), "no reactions reported");
                    for r in r {
                        ensure!(self.reactions.pop_front().as_ref() == Some(&r), "unexpected reaction {r:?}");
                    }
                }
                Ev::Speech(_) | Ev::LowBandwidth(_) => fail!("{e:?} in silence"),
                Ev::Ended(_) => fail!("{e:?} out of turn"),
                Ev::Rtp(p) => {
                    ensure!(p.pt == 101, "payload type {}", p.pt);
                    let which = match p.ssrc {
                        1 => 0,
                        s if s == ME + 0xD => 1,
                        s => fail!("a packet with SSRC {s}"),
                    };
                    ensure!(before.in_call || self.in_call(), "a packet was sent while not in the call: {p:?}");
                    ensure!(
                        p.timestamp == self.seqs[which] && p.seqnum == p.timestamp as u16,
                        "packet {}/{} instead of {}",
                        p.seqnum,
                        p.timestamp,
                        self.seqs[which]
                    );
                    self.seqs[which] = self.seqs[which].wrapping_add(1);
                    if which == 1 {
                        ensure!(before.joined || self.join == J::Joined, "sent to everyone without being in the call");
                        let Some(m) = self.read_cast(&p.payload) else { fail!("a message to everyone can't be read") };
                        if next_cast == Some(&m) {
                            next_cast = cast.next();
                        } else {
                            ensure!(
                                m == before.heartbeat || m == self.heartbeat_msg(),
                                "sent to everyone: {m:?}; expected {:?} or a heartbeat {:?}",
                                next_cast,
                                self.heartbeat_msg()
                            );
                        }
                        if m.heartbeat.is_some() {
                            before.beats.set(before.beats.get() + 1);
                        }
                    } else {
                        let Ok(mut m) = DeviceToSfu::decode(&p.payload[..]) else { fail!("a message to the SFU can't be read") };
                        if let Some(h) = m.mrp_header.take() {
                            if let Some(n) = h.ack_num {
                                ensure!(m == DeviceToSfu::default() && h.seqnum.is_none(), "an acknowledgement with more in it: {m:?}");
                                ensure!(n >= self.acked && n <= self.reliable + 1, "acknowledged {n}, sent {}", self.reliable);
                                self.acked = n;
                                continue;
                            }
                            let Some(n) = h.seqnum else { fail!("an empty header") };
                            if let Some(old) = self.admin_sent.get(&n) {
                                ensure!(*old == p.payload, "message {n} was sent again with something else in it");
                                before.resent.set(before.resent.get() + 1);
                                continue;
                            }
                            ensure!(m.admin_action.is_some() && next_to_sfu == Some(&m), "reliable message {m:?} instead of {next_to_sfu:?}");
                            ensure!(self.admin_seq.is_none_or(|l| n == l + 1), "message {n} after {:?}", self.admin_seq);
                            self.admin_seq = Some(n);
                            self.admin_sent.insert(n, p.payload.clone());
                            next_to_sfu = to_sfu.next();
                            continue;
                        }
                        if next_to_sfu == Some(&m) {
                            next_to_sfu = to_sfu.next();
                            // A due repetition may have come first.
                            if m.video_request.is_some() {
                                before.videos.set(before.videos.get() + 1);
                            }
                            continue;
                        }
                        if m.stats.is_some() {
                            continue;
                        }
                        if m.video_request.is_some() {
                            before.videos.set(before.videos.get() + 1);
                            ensure!(
                                Some(&m) == before.video.as_ref() || Some(m.clone()) == self.video_msg(),
                                "video request {m:?}, wanted {:?}",
                                self.video_msg()
                            );
                            self.on_demand_used = true;
                            continue;
                        }
                        if m.raise_hand.is_some() {
                            before.raises.set(before.raises.get() + 1);
                            ensure!(
                                before.hand_open && m == before.hand || self.hand_open && m == self.hand_msg(),
                                "sent {m:?}, our hand is {:?}, open {}",
                                self.hand_msg(),
                                self.hand_open
                            );
                            continue;
                        }
                        fail!("sent {m:?} to the SFU instead of {next_to_sfu:?}");
                    }
                }
            }
        }
        if let Some(m) = next_cast {
            fail!("never sent to everyone: {m:?}");
        }
        if let Some(m) = next_to_sfu {
            fail!("never sent to the SFU: {m:?}");
        }
        ensure!(conn == exp.conn, "connection went {conn:?} instead of {:?}", exp.conn);
        let mut want_join = exp.join.clone();
        want_join.dedup();
        ensure!(join == want_join, "joining went {join:?} instead of {want_join:?}");
        ensure!(peek == exp.peek, "told who is in the call: {peek:?} instead of {:?}", exp.peek);
        ensure!(rates == exp.rates, "rates {rates:?} instead of {:?}", exp.rates);
        ensure!(hands == exp.hands, "hands {hands:?} instead of {:?}", exp.hands);
        ensure!(observed == exp.observed, "saw mutings {observed:?} instead of {:?}", exp.observed);
        ensure!(proofs == exp.proofs, "asked for a proof {proofs} times instead of {}", exp.proofs);
        ensure!(asks == exp.asks, "asked for the members {asks} times instead of {}", exp.asks);
        ensure!(joins == exp.joins, "joined {joins} times instead of {}", exp.joins);
        ensure!(sfu_proofs == exp.sfu_proofs, "gave the SFU a proof {sfu_proofs} times instead of {}", exp.sfu_proofs);
        ensure!(sfu_members == exp.sfu_members, "gave the SFU {sfu_members:?} instead of {:?}", exp.sfu_members);
        if !self.late() {
            ensure!(peeks == exp.peeks, "asked for the devices {peeks} times instead of {}", exp.peeks);
        }
        if !self.rotation_late() {
            let mut want = exp.sigs.clone();
            want.sort();
            sigs.sort();
            ensure!(sigs == want, "signaling:\n  sent {sigs:?}\n  instead of {want:?}");
        }
        ensure!(
            remote.len() == exp.remote.len() && remote.iter().zip(&exp.remote).all(|(a, b)| a.1 == b.1),
            "remote devices changed because of {:?} instead of {:?}",
            remote.iter().map(|r| r.1).collect::<Vec<_>>(),
            exp.remote.iter().map(|r| r.1).collect::<Vec<_>>()
        );
        for ((got, why), (want, _)) in remote.iter().zip(&exp.remote) {
            self.check_devices(got, want, *why)?;
        }
        // Requests to mute are passed on once, by the tick after they came.
        let mut ways: BTreeSet<Option<u32>> = Default::default();
        for &p in &self.mute {
            let after = p.or(exp.mute);
            match mutes[..] {
                [] => {
                    ways.insert(after);
                }
                [e] => {
                    if p == Some(e) {
                        ways.insert(exp.mute);
                    }
                    if after == Some(e) {
                        ways.insert(None);
                    }
                }
                [a, b] => {
                    if p == Some(a) && exp.mute == Some(b) {
                        ways.insert(None);
                    }
                }
                _ => {}
            }
        }
        ensure!(!ways.is_empty(), "asked to mute by {mutes:?}; could be {:?} and {:?}", self.mute, exp.mute);
        self.mute = ways;
        self.check_engine()?;
        let busy = *self.rig.busy.lock().unwrap();
        ensure!(busy == (self.other || self.join != J::No), "the call manager's state of being busy is {busy}");
        if let Some(why) = exp.ended {
            return self.check_end(why);
        }
        Ok(())
    }
    fn check_devices(&mut self, got: &[Dev], want: &Snap, why: Why) -> Res {
        let ids: Vec<u32> = got.iter().map(|d| d.id).collect();
        ensure!(ids.iter().eq(want.keys()), "{why:?}: remote devices {ids:?} instead of {:?}", want.keys());
        for d in got {
            let w = &want[&d.id];
            ensure!(
                (&d.user, d.keys, &d.beat, d.leaving, d.forwarding, d.server_h, d.decoded, d.pending)
                    == (&w.user, w.keys, &w.beat, w.leaving, w.forwarding, w.server_h, w.decoded, w.pending),
                "{why:?}: {d:?} instead of {w:?}"
            );
            let first = *self.added.entry(d.id).or_insert(d.added);
            ensure!(first == d.added, "{}: the time of joining changed", d.id);
            ensure!(d.spoke.is_some() == (w.spoke > 0), "{why:?}: {} spoke at {:?}", d.id, d.spoke);
            for e in got {
                ensure!(
                    w.spoke == 0 || want[&e.id].spoke == 0 || d.spoke.cmp(&e.spoke) == w.spoke.cmp(&want[&e.id].spoke),
                    "{why:?}: the order of speakers is wrong: {d:?} and {e:?}"
                );
            }
        }
        Ok(())
    }
    fn check_engine(&mut self) -> Res {
        let g = self.rig.pc.group(|g| g.clone());
        let out = self.rig.pc.outgoing_audio_enabled();
        ensure!(
            (g.recording, out, g.playout, g.incoming) == (self.rec, self.out, self.play, self.incoming),
            "recording {}, sending {out}, playing {}, receiving {:?} instead of {:?}",
            g.recording,
            g.playout,
            g.incoming,
            (self.rec, self.out, self.play, self.incoming)
        );
        let bps = |r: Option<DataRate>| r.map_or(-1, |r| r.as_bps() as i32);
        let rates = (self.rates != SendRates::default()).then(|| (bps(self.rates.min), bps(self.rates.start), bps(self.rates.max)));
        ensure!(g.bitrates == rates, "rates {:?} instead of {rates:?}", g.bitrates);
        if let Some(setup) = &self.setup {
            for (got, want) in g.descriptions.iter().zip(setup) {
                let want = Description { remotes: g.transceivers.clone(), ..want.clone() };
                ensure!(got.as_ref() == Some(&want), "the connection was set up with {got:?} instead of {want:?}");
            }
            let mut servers = vec![
                ("1.2.3.4".parse().unwrap(), 1234, false, None),
                ("2001:db8::7".parse().unwrap(), 77, false, None),
                ("1.2.3.5".parse().unwrap(), 4321, true, None),
            ];
            if self.host {
                servers.push(("1.2.3.6".parse().unwrap(), 443, true, Some("sfu.example".into())));
            }
            ensure!(g.servers == servers, "connecting to {:?} instead of {servers:?}", g.servers);
        }
        // The media of those whose keys are known can be read, and no other.
        for d in 1..N {
            if !self.heard.contains(&d) && d != self.unheard {
                continue;
            }
            let read = self.rig.client.verif_decrypt_media(id(d), &sound(&mut self.devices[d as usize]));
            ensure!(
                read.as_ref().is_ok_and(|r| r == b"some sound") == self.heard.contains(&d),
                "the media of {} was read as {:?}; keys known: {}",
                id(d),
                read.ok(),
                self.heard.contains(&d)
            );
        }
        self.unheard = self.unheard % (N - 1) + 1;
        for (&d, forger) in &mut self.forgers {
            ensure!(self.rig.client.verif_decrypt_media(id(d), &sound(forger)).is_err(), "somebody else's key is taken for that of {}", id(d));
        }
        // A slot has to be emptied before it's used again.
        for i in self.described.max(1)..g.described.len() {
            for (old, new) in g.described[i - 1].iter().zip(&g.described[i]) {
                ensure!(*old == 0 || *new == 0 || old == new, "the slot of {old} is used for {new} at once: {:?}", &g.described[i - 1..=i]);
            }
        }
        self.described = g.described.len();
        // Every remote device has a slot, and keeps it.
        if self.in_call() && self.started_pc {
            let slots = &g.transceivers;
            let mut used: Vec<u32> = slots.iter().copied().filter(|&s| s != 0).collect();
            used.sort_unstable();
            ensure!(used.iter().eq(self.remotes.keys()), "slots for {used:?}, devices {:?}", self.remotes.keys());
            for (i, &old) in self.slots.iter().enumerate() {
                if self.remotes.contains_key(&old) {
                    ensure!(slots.get(i) == Some(&old), "device {old} lost its slot {i}: {:?} -> {slots:?}", self.slots);
                }
            }
            let kept = self.slots.iter().filter(|s| self.remotes.contains_key(s)).count();
            let room = self.slots.len();
            let new = self.remotes.len() - kept;
            ensure!(
                slots.len() == room.max(kept + new),
                "{} slots for {} devices; there were {room}, of which {kept} are still in use",
                slots.len(),
                self.remotes.len()
            );
            self.slots = slots.clone();
        }
        Ok(())
    }
    /// The end of the call has begun: it takes a moment.
    fn check_end(&mut self, why: End) -> Res {
        ensure!(self.rig.log.wait(LONG, |l| l.iter().any(|e| matches!(e, Ev::Ended(_)))), "the call doesn't end");
        std::thread::sleep(Duration::from_millis(30));
        let got: Vec<Ev> = self.rig.log.take();
        let rest: Vec<&Ev> = got.iter().filter(|e| !matches!(e, Ev::SfuPeek | Ev::Reactions(_) | Ev::MuteRequest(_))).collect();
        ensure!(
            matches!(rest[..], [Ev::Conn(Conn::NotConnected), Ev::Ended(r)] if *r == why),
            "the call ended with {rest:?} instead of {why:?}"
        );
        ensure!(matches!(got.last(), Some(Ev::Ended(_))), "after the end: {got:?}");
        ensure!(self.rig.pc.group(|g| g.closed), "the connection is still open");
        self.over = true;
        self.labels.insert("ended");
        Ok(())
    }
    /// The call ends while other things are being asked for.
    fn quit(&mut self, how: u8, then: &[u8]) -> Res {
        let c = self.rig.client.clone();
        let mut how = how % 3;
        if how == 2 && !self.started_pc {
            how = 0;
        }
        if self.conn == Conn::NotConnected {
            return Ok(());
        }
        match how {
            0 => c.disconnect(),
            1 => {
                c.leave();
                c.disconnect()
            }
            _ => c.verif_observer(|o| {
                let _ = o.handle_ice_connection_state_changed(Ice::Failed);
            }),
        }
        for t in then {
            match t % 6 {
                0 => c.join(),
                1 => c.leave(),
                2 => c.disconnect(),
                3 => c.connect(),
                4 => c.ring(None),
                _ => std::thread::sleep(Duration::from_millis(7)),
            }
        }
        ensure!(self.rig.log.wait(LONG, |l| l.iter().any(|e| matches!(e, Ev::Ended(_)))), "the call doesn't end");
        std::thread::sleep(Duration::from_millis(30));
        let got = self.rig.log.take();
        ensure!(got.iter().filter(|e| matches!(e, Ev::Ended(_))).count() == 1, "ended more than once: {got:?}");
        ensure!(matches!(got.last(), Some(Ev::Ended(_))), "after the end: {got:?}");
        ensure!(self.rig.pc.group(|g| g.closed), "the connection is still open");
        let last = got.iter().rev().find_map(|e| match e {
            Ev::Join(j) => Some(*j),
            _ => None,
        });
        ensure!(
            match last {
                Some(j) => matches!(j, JoinState::NotJoined(_)),
                None => self.join == J::No,
            },
            "ended while {last:?}"
        );
        let busy = *self.rig.busy.lock().unwrap();
        ensure!(busy == self.other, "the call has ended, and the call manager's state of being busy is {busy}");
        self.over = true;
        self.labels.insert("asked for more while ending");
        Ok(())
    }
    fn before(&self) -> Before {
        Before {
            in_call: self.in_call(),
            joined: self.join == J::Joined,
            heartbeat: self.heartbeat_msg(),
            video: self.video_msg(),
            hand: self.hand_msg(),
            hand_open: self.hand_open,
            beats: 0.into(),
            videos: 0.into(),
            raises: 0.into(),
            resent: 0.into(),
        }
    }
    /// How often things are said again. Only counts when this thread ran as it should, and only if seen several times.
    fn count(&mut self) -> Res {
        const TIME: Duration = Duration::from_millis(3700);
        let hand = self.in_call() && self.hand_open;
        let video = self.in_call() && self.join == J::Joined && self.video.is_some();
        if self.join != J::Joined && !hand {
            return Ok(());
        }
        let mut seen = 0;
        for _ in 0..6 {
            let b = self.before();
            let t = Instant::now();
            let mut stalled = false;
            while t.elapsed() < TIME {
                let s = Instant::now();
                std::thread::sleep(Duration::from_millis(20));
                stalled |= s.elapsed() > Duration::from_millis(120);
                let got = self.rig.log.take();
                self.check(&b, got)?;
            }
            let (beats, videos, raises) = (b.beats.get(), b.videos.get(), b.raises.get());
            let ok = (self.join != J::Joined || (3..=5).contains(&beats))
                && (!video || (3..=5).contains(&videos))
                && (!hand || (5..=9).contains(&raises));
            if ok {
                self.labels.insert("counted for a while");
                return Ok(());
            }
            if !stalled {
                seen += 1;
            }
            ensure!(seen < 3, "in {TIME:?} of being in the call: {beats} heartbeats, {videos} video requests (wanted: {video}), {raises} raised hands (due: {hand})");
        }
        Ok(())
    }
    /// Time passes: what is due is done.
    fn wait(&mut self, ms: u16) -> Res {
        let b = self.before();
        let t = Instant::now();
        std::thread::sleep(Duration::from_millis(ms as u64));
        let ticking = self.conn != Conn::NotConnected;
        let unacked = self.in_call() && !self.admin_sent.is_empty();
        loop {
            let got = self.rig.log.take();
            self.check(&b, got)?;
            let mut missing = None;
            if ticking && ms >= 450 {
                if !self.reactions.is_empty() {
                    missing = Some("reactions");
                }
                if self.mute != [None].into() {
                    missing = Some("a request to mute");
                }
                if self.in_call() && self.acked != 0 && self.acked < self.reliable + 1 {
                    // Acknowledged up to the next one expected.
                    missing = Some("an acknowledgement");
                }
            }
            if ticking && ms >= 900 && self.hand_open && self.in_call() && b.raises.get() == 0 {
                missing = Some("the raised hand again");
            }
            if ticking && ms >= 1500 {
                if self.join == J::Joined && b.beats.get() == 0 {
                    missing = Some("a heartbeat");
                }
                if self.in_call() && self.video.is_some() && b.videos.get() == 0 {
                    missing = Some("a video request");
                }
                if unacked && b.resent.get() == 0 {
                    missing = Some("an unacknowledged message again");
                }
            }
            let Some(m) = missing else { break };
            ensure!(t.elapsed() < LONG, "missing: {m} (acknowledged {} of {})", self.acked, self.reliable);
            std::thread::sleep(Duration::from_millis(20));
        }
        let secs = t.elapsed().as_millis() as u64 / 1000;
        ensure!(b.beats.get() <= secs + 2, "{} heartbeats in {secs} s", b.beats.get());
        if b.beats.get() > 0 {
            self.labels.insert("heartbeats seen");
        }
        Ok(())
    }
}

/// What the client may still say about the state before an operation.
struct Before {
    in_call: bool,
    joined: bool,
    heartbeat: DeviceToDevice,
    video: Option<DeviceToSfu>,
    hand: DeviceToSfu,
    hand_open: bool,
    beats: std::cell::Cell<u64>,
    videos: std::cell::Cell<u64>,
    raises: std::cell::Cell<u64>,
    resent: std::cell::Cell<u64>,
}

pub fn run(c: &Case, o: &mut Obs, wanted: &[&'static str]) -> Res {
    let mut m = Model::new(c);
    let mut done = 0;
    // What the client does when it starts.
    if m.req == Req::Never {
        m.ask_devices();
    }
    m.rig.sync();
    let b = m.before();
    let got = m.rig.log.take();
    m.check(&b, got).map_err(|f| note(f, "at the start"))?;
    for (i, op) in c.ops.iter().enumerate() {
        if m.over {
            break;
        }
        let at = |f| note(f, &format!("step {i} {op:?}"));
        match op {
            Op::Wait(ms) => m.wait(*ms).map_err(at)?,
            Op::Count => m.count().map_err(at)?,
            Op::Quit(how, then) => m.quit(*how, then).map_err(at)?,
            _ => {
                let b = m.before();
                if !m.apply(op) {
                    continue;
                }
                let ending = m.exp.ended.is_some();
                if !ending {
                    ensure!(m.rig.sync(), "step {i} {op:?}: the client has stopped");
                }
                let mut got = m.rig.log.take();
                if ending {
                    // The last of it is looked at apart.
                    m.rig.log.wait(LONG, |l| l.iter().any(|e| matches!(e, Ev::Ended(_))));
                    got.extend(m.rig.log.take());
                    let at = got.iter().rposition(|e| matches!(e, Ev::Conn(Conn::NotConnected))).unwrap_or(got.len());
                    let tail = got.split_off(at);
                    m.rig.log.put_back(tail);
                }
                m.check(&b, got).map_err(at)?;
            }
        }
        done += 1;
    }
    for l in &m.labels {
        o.label(l);
    }
    o.nontrivial_if(done > 3 && wanted.iter().any(|w| m.labels.contains(w)));
    Ok(())
}
fn note(mut f: harness::Fail, what: &str) -> harness::Fail {
    f.msg = format!("{what}: {}", f.msg);
    f
}
