//! A reference model of how one device handles its 1:1 calls, stepped along
//! with the real call manager: every operation is run to completion on both
//! and everything the library did is compared with what the model expects.
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    sync::mpsc,
    time::{Duration, Instant},
};

use harness::{Obs, Res, ensure, fail};
use proptest::prelude::*;
use ringrtc::{
    common::{ApplicationEvent as Ev, CallConfig, CallDirection as Dir, CallEndReason as End, CallId, CallMediaType, DataMode},
    core::{connection::ConnectionType, signaling},
    protobuf::rtp_data as pb,
    webrtc::{self, media::MediaStream},
};
use serde::{Deserialize, Serialize};

use crate::{
    call_props::{hangup, route, rtp_message},
    plat::*,
};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum To {
    Active,
    /// A call whose offer is still to come.
    Early,
    /// A call that ended.
    Old,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum NewId {
    Above,
    Below,
    Same,
    Early,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum COp {
    IceUp,
    IceFail,
    IceDown,
    Route(bool),
    /// A candidate of ours, and whether it has to be sent even by a child.
    LocalIce(u8, bool),
    Accepted(bool),
    Hangup(bool, u8, u8),
    /// Right call, video, screen, audio, and how much newer (or older).
    Status(bool, Option<bool>, Option<bool>, Option<bool>, i8),
    Rate(bool, u32, i8),
    Tick,
    Send(Option<bool>, Option<bool>, Option<bool>),
    Low(bool),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Call { peer: u8 },
    Proceed { low: bool },
    Accept,
    Drop(bool),
    Hangup,
    Offer { id: NewId, peer: u8, from: u8, old: bool, rate: Option<u32> },
    Answer { right: bool, peer: u8, from: u8, rate: Option<u32> },
    Ice { to: To, peer: u8, from: u8 },
    RemoteHangup { to: To, peer: u8, from: u8, kind: u8, dev: u8 },
    Busy { right: bool, peer: u8, from: u8 },
    Sent,
    NotSent,
    Parent(u8),
    Conn(u8, COp),
    Timeout,
    Reset,
}

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
enum St {
    Waiting,
    Connecting,
    Connected,
    AcceptedConnecting,
    Accepted,
    Reconnecting,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cst {
    Connecting,
    AcceptedConnecting,
    Connected,
    Accepted,
    Reconnecting,
    Failed,
}

type Flags = (Option<bool>, Option<bool>, Option<bool>);

#[derive(Clone, Debug)]
struct Conn {
    st: Cst,
    low: bool,
    remote: Option<u64>,
    relayed: bool,
    sender: Option<(u64, Flags)>,
    receiver: Option<(u64, u64)>,
    sent: pb::Message,
    buffered: Vec<u32>,
    removed: Vec<u32>,
    media: bool,
}
impl Conn {
    fn new(low: bool, remote: Option<u64>) -> Conn {
        Conn {
            st: Cst::Connecting,
            low,
            remote,
            relayed: false,
            sender: None,
            receiver: None,
            sent: Default::default(),
            buffered: vec![],
            removed: vec![],
            media: false,
        }
    }
    fn rate(&self) -> u64 {
        let mut r = if self.low { 300_000 } else { 2_000_000 };
        if let Some(m) = self.remote {
            r = r.min(m);
        }
        if self.relayed {
            r = r.min(1_000_000);
        }
        r.max(30_000)
    }
}

#[derive(Clone, Debug)]
struct Call {
    id: u64,
    peer: String,
    dir: Dir,
    st: St,
    /// The caller's device and its bit rate limit, until proceeding.
    offer: Option<(u32, Option<u64>)>,
    stored_ice: Vec<u32>,
    active: Option<u32>,
    conns: BTreeMap<u32, Conn>,
    low: bool,
    proceeded: bool,
    offer_sent: bool,
    rang: bool,
    parent_buffered: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Offer,
    Answer(u32),
    Ice(u32),
    /// Of a connection that is gone.
    Late(u32, Vec<u32>),
    Hangup(signaling::Hangup),
    Busy,
}
#[derive(Clone, Debug)]
struct Msg {
    call: u64,
    peer: String,
    kind: Kind,
}

enum Pending {
    None,
    Ice(String, u64, Vec<u32>),
    Hangup(String, u64, u32, signaling::Hangup),
}

pub struct Model {
    call: Option<Call>,
    pending: Pending,
    queue: VecDeque<Msg>,
    in_flight: Option<u64>,
    last: Option<Kind>,
    out: Vec<String>,
    /// The queued hangups of calls ended during this step, sent after it.
    later: Vec<Msg>,
    ended: Vec<u64>,
    pub seen: BTreeSet<&'static str>,
}

fn sdp(n: u32) -> String {
    format!("candidate:{n} 1 udp 1 10.0.0.{} 5 typ host", n % 250)
}
fn address(n: u32) -> std::net::SocketAddr {
    std::net::SocketAddr::from(([10, 0, (n >> 8) as u8, n as u8], 1000))
}

impl Model {
    pub fn new() -> Model {
        Model {
            call: None,
            pending: Pending::None,
            queue: VecDeque::new(),
            in_flight: None,
            last: None,
            out: vec![],
            later: vec![],
            ended: vec![],
            seen: BTreeSet::new(),
        }
    }
    fn ev(&mut self, call: u64, ev: Ev) {
        self.out.push(format!("event {call} {ev}"));
    }
    fn send_next(&mut self, m: Option<Msg>) {
        self.queue.extend(m);
        while self.in_flight.is_none() {
            let Some(m) = self.queue.pop_front() else { return };
            let sent = match &m.kind {
                Kind::Offer => {
                    self.out.push(format!("offer {}", m.call));
                    true
                }
                Kind::Answer(d) => {
                    self.out.push(format!("answer {} {d}", m.call));
                    true
                }
                Kind::Ice(d) => {
                    let c = self.call.as_mut().filter(|c| c.id == m.call);
                    let list = match c {
                        None => vec![],
                        Some(c) if *d == 0 => std::mem::take(&mut c.parent_buffered),
                        Some(c) => c.conns.get_mut(d).map(|c| std::mem::take(&mut c.buffered)).unwrap_or_default(),
                    };
                    if !list.is_empty() {
                        let to = if *d == 0 { None } else { Some(*d) };
                        self.out
                            .push(format!("ice {} {to:?} {:?}", m.call, list.iter().map(|n| sdp(*n)).collect::<Vec<_>>()));
                    }
                    !list.is_empty()
                }
                Kind::Late(d, list) => {
                    self.seen.insert("candidates of a closed connection");
                    self.out
                        .push(format!("ice {} {:?} {:?}", m.call, Some(d), list.iter().map(|n| sdp(*n)).collect::<Vec<_>>()));
                    true
                }
                Kind::Hangup(h) => {
                    self.out.push(format!("hangup {} {h}", m.call));
                    true
                }
                Kind::Busy => {
                    self.out.push(format!("busy {}", m.call));
                    true
                }
            };
            if sent {
                self.in_flight = Some(m.call);
            }
            self.last = Some(m.kind);
        }
    }
    fn rtp(&mut self, id: u64, dev: u32, f: impl FnOnce(&mut pb::Message)) {
        let c = self.call.as_mut().unwrap().conns.get_mut(&dev).unwrap();
        f(&mut c.sent);
        c.sent.seqnum = Some(c.sent.seqnum.unwrap_or(0) + 1);
        self.out.push(format!("rtp {id} {dev} {:?}", c.sent));
    }
    fn rtp_hangup(&mut self, h: signaling::Hangup, except: Option<u32>) {
        let (id, devs): (u64, Vec<u32>) = match &self.call {
            Some(c) => (c.id, c.conns.keys().copied().filter(|d| Some(*d) != except).collect()),
            None => return,
        };
        let (t, d) = h.to_type_and_device_id();
        for dev in devs {
            self.rtp(id, dev, |m| {
                m.hangup = Some(pb::Hangup { id: Some(id), r#type: Some(t as i32), device_id: d })
            });
        }
    }
    fn signal_hangup(&mut self, h: signaling::Hangup) {
        let c = self.call.as_ref().unwrap();
        let m = Msg { call: c.id, peer: c.peer.clone(), kind: Kind::Hangup(h) };
        self.send_next(Some(m));
    }
    fn end(&mut self, hang: bool, reason: Option<End>) {
        let id = self.call.as_ref().unwrap().id;
        self.queue.retain(|m| m.call != id || matches!(m.kind, Kind::Busy | Kind::Hangup(_)));
        if let Some(r) = reason {
            self.seen.insert(match r {
                End::LocalHangup => "ended: hung up",
                End::AppDroppedCall => "ended: dropped",
                End::RemoteHangup => "ended: remote hangup",
                End::RemoteHangupNeedPermission => "ended: permission needed",
                End::RemoteHangupAccepted => "ended: accepted elsewhere",
                End::RemoteHangupDeclined => "ended: declined elsewhere",
                End::RemoteHangupBusy => "ended: busy elsewhere",
                End::RemoteBusy => "ended: remote busy",
                End::RemoteGlare => "ended: glare",
                End::RemoteReCall => "ended: recall",
                End::Timeout => "ended: timeout",
                End::SignalingFailure => "ended: signaling failure",
                End::ConnectionFailure => "ended: connection failure",
                _ => "ended: other",
            });
            self.out.push(format!("ended {id} {r}"));
        }
        if hang {
            self.rtp_hangup(signaling::Hangup::Normal, None);
        }
        let c = self.call.take().unwrap();
        if hang && (c.dir == Dir::Incoming || c.offer_sent) {
            self.later
                .push(Msg { call: id, peer: c.peer.clone(), kind: Kind::Hangup(signaling::Hangup::Normal) });
        }
        if c.proceeded {
            self.out.push(format!("disconnect {id}"));
        }
        self.ended.push(id);
    }
    fn fail_hang(&self) -> bool {
        let c = self.call.as_ref().unwrap();
        c.dir == Dir::Outgoing || c.st > St::Connected
    }
    fn fail(&mut self, reason: End) {
        let h = self.fail_hang();
        self.end(h, Some(reason));
    }
    fn start(&mut self, id: u64, peer: String, dir: Dir, offer: Option<(u32, Option<u64>)>) {
        self.in_flight = None;
        self.out.push(format!("start {id} {dir} {peer}"));
        let active = offer.map(|o| o.0);
        self.call = Some(Call {
            id,
            peer,
            dir,
            st: St::Waiting,
            offer,
            stored_ice: vec![],
            active,
            conns: BTreeMap::new(),
            low: false,
            proceeded: false,
            offer_sent: false,
            rang: false,
            parent_buffered: vec![],
        });
    }
    fn offered(&mut self, id: u64, peer: String, from: u32, old: bool, rate: Option<u64>) {
        if old {
            self.out.push(format!("expired {id}"));
            self.seen.insert("expired offer");
            return;
        }
        enum V {
            Start,
            Busy,
            Ignore,
            Lose,
            Both,
            Again,
        }
        let v = match &self.call {
            None => V::Start,
            Some(c) if c.peer != peer => V::Busy,
            Some(c) => match c.active {
                Some(d) if d != from => V::Busy,
                Some(_) if (c.st >= St::Accepted || c.dir == Dir::Incoming) && c.id != id => V::Again,
                _ if c.id > id => V::Ignore,
                _ if c.id < id => V::Lose,
                _ => V::Both,
            },
        };
        match v {
            V::Start => {}
            V::Busy => {
                self.seen.insert("busy");
                self.ev(id, Ev::ReceivedOfferWhileActive);
                self.send_next(Some(Msg { call: id, peer, kind: Kind::Busy }));
                return;
            }
            V::Ignore => {
                self.seen.insert("glare won");
                self.ev(id, Ev::ReceivedOfferWithGlare);
                return;
            }
            V::Lose => {
                self.seen.insert("glare lost");
                self.end(true, Some(End::RemoteGlare));
            }
            V::Again => {
                self.seen.insert("recall");
                self.end(false, Some(End::RemoteReCall));
            }
            V::Both => {
                self.seen.insert("glare with equal ids");
                self.end(true, Some(End::RemoteGlare));
                self.ev(id, Ev::GlareHandlingFailure);
                self.send_next(Some(Msg { call: id, peer, kind: Kind::Busy }));
                return;
            }
        }
        self.start(id, peer.clone(), Dir::Incoming, Some((from, rate)));
        match std::mem::replace(&mut self.pending, Pending::None) {
            Pending::Ice(p, i, list) if i == id && p == peer => {
                self.seen.insert("early candidates");
                self.call.as_mut().unwrap().stored_ice = list;
            }
            Pending::Hangup(p, i, dev, h) if i == id && p == peer => {
                self.seen.insert("early hangup");
                self.hung_up(dev, h);
            }
            _ => {}
        }
    }
    fn can_save(&self) -> bool {
        self.call.as_ref().is_none_or(|c| c.dir == Dir::Outgoing)
    }
    fn hung_up(&mut self, from: u32, h: signaling::Hangup) {
        let c = self.call.as_ref().unwrap();
        let (kind, dev) = h.to_type_and_device_id();
        use signaling::HangupType as H;
        if c.dir == Dir::Incoming && dev == Some(1) {
            self.seen.insert("echo of our own hangup");
            return;
        }
        if c.active.is_some_and(|a| a != from) {
            self.seen.insert("hangup from another device");
            return;
        }
        let (pass, reason) = match (kind, c.dir) {
            (H::NeedPermission, Dir::Outgoing) => {
                (Some(signaling::Hangup::NeedPermission(Some(from))), End::RemoteHangupNeedPermission)
            }
            (H::Normal, Dir::Outgoing) => (Some(signaling::Hangup::DeclinedOnAnotherDevice(from)), End::RemoteHangup),
            (H::AcceptedOnAnotherDevice, Dir::Incoming) => (None, End::RemoteHangupAccepted),
            (H::DeclinedOnAnotherDevice, Dir::Incoming) => (None, End::RemoteHangupDeclined),
            (H::BusyOnAnotherDevice, Dir::Incoming) => (None, End::RemoteHangupBusy),
            _ => (None, End::RemoteHangup),
        };
        if let Some(h) = pass
            && c.st <= St::Connected
        {
            self.seen.insert("decline passed on");
            self.rtp_hangup(h, Some(from));
            self.signal_hangup(h);
        }
        self.end(false, Some(reason));
    }
    fn rang(&mut self) {
        let c = self.call.as_mut().unwrap();
        let id = c.id;
        if !std::mem::replace(&mut c.rang, true) {
            self.ev(id, Ev::RemoteRinging);
        }
    }
    fn flags(&mut self, f: Flags) {
        let id = self.call.as_ref().unwrap().id;
        for (v, on, off) in [
            (f.0, Ev::RemoteVideoEnable, Ev::RemoteVideoDisable),
            (f.1, Ev::RemoteSharingScreenEnable, Ev::RemoteSharingScreenDisable),
            (f.2, Ev::RemoteAudioEnable, Ev::RemoteAudioDisable),
        ] {
            if let Some(v) = v {
                self.seen.insert("status reported");
                self.ev(id, if v { on } else { off });
            }
        }
    }
    /// The connection is up and the call accepted.
    fn first_accepted(&mut self, dev: u32) {
        let c = self.call.as_mut().unwrap();
        let id = c.id;
        let dir = c.dir;
        c.st = St::Accepted;
        let k = c.conns.get_mut(&dev).unwrap();
        k.st = Cst::Accepted;
        k.media = true;
        if let Some((_, r)) = k.receiver {
            k.remote = Some(r);
        }
        let s = k.sender;
        let relayed = k.relayed;
        self.out.push(format!("connect {id}.{dev}"));
        if let Some((_, f)) = s {
            self.seen.insert("status from before acceptance");
            self.flags(f);
        }
        if dir == Dir::Incoming {
            self.rtp(id, dev, |m| m.accepted = Some(pb::Accepted { id: Some(id) }));
            self.ev(id, Ev::LocalAccepted);
        } else {
            self.ev(id, Ev::RemoteAccepted);
            self.out.push(format!("route {relayed}"));
        }
        self.seen.insert("accepted");
    }
    /// Candidates that are already queued are sent even if their connection is gone.
    fn close(&mut self, dev: u32) {
        let c = self.call.as_mut().unwrap();
        let Some(k) = c.conns.remove(&dev) else { return };
        if k.buffered.is_empty() {
            return;
        }
        for m in &mut self.queue {
            if m.call == c.id && m.kind == Kind::Ice(dev) {
                m.kind = Kind::Late(dev, k.buffered.clone());
            }
        }
    }
    fn only(&mut self, dev: u32) {
        let h = signaling::Hangup::AcceptedOnAnotherDevice(dev);
        self.rtp_hangup(h, Some(dev));
        self.signal_hangup(h);
        let c = self.call.as_mut().unwrap();
        c.active = Some(dev);
        if c.conns.len() > 1 {
            self.seen.insert("others told of acceptance");
        }
        let gone: Vec<u32> = c.conns.keys().copied().filter(|d| *d != dev).collect();
        gone.into_iter().for_each(|d| self.close(d));
    }
    fn conn(&mut self, dev: u32, op: COp, seq: u64) {
        let c = self.call.as_mut().unwrap();
        let (id, dir) = (c.id, c.dir);
        let Some(k) = c.conns.get_mut(&dev) else { return };
        let is_active = c.active == Some(dev);
        let up = k.st != Cst::Failed;
        match op {
            COp::IceUp => match k.st {
                Cst::Connecting => {
                    k.st = Cst::Connected;
                    if c.st == St::Connecting {
                        c.st = St::Connected;
                        if dir == Dir::Incoming {
                            self.ev(id, Ev::LocalRinging);
                        } else {
                            self.rang();
                        }
                    }
                }
                Cst::AcceptedConnecting => {
                    self.rang();
                    self.first_accepted(dev);
                }
                Cst::Reconnecting => {
                    k.st = Cst::Accepted;
                    if c.st == St::Reconnecting {
                        c.st = St::Accepted;
                        self.seen.insert("reconnected");
                        self.ev(id, Ev::Reconnected);
                    }
                }
                _ => {}
            },
            COp::IceFail => {
                if up {
                    k.st = Cst::Failed;
                    match c.active {
                        Some(a) if a != dev => {}
                        None if c.conns.len() > 1 => {
                            self.close(dev);
                            self.seen.insert("one of several connections failed");
                        }
                        _ => self.fail(End::ConnectionFailure),
                    }
                }
            }
            COp::IceDown => match k.st {
                Cst::Connected => k.st = Cst::Connecting,
                Cst::Accepted => {
                    k.st = Cst::Reconnecting;
                    if c.st == St::Accepted && is_active {
                        c.st = St::Reconnecting;
                        self.ev(id, Ev::Reconnecting);
                    }
                }
                _ => {}
            },
            COp::Route(r) => {
                k.relayed = r;
                if is_active {
                    self.out.push(format!("route {r}"));
                }
            }
            COp::LocalIce(n, force) => {
                if dir == Dir::Incoming || force {
                    let first = k.buffered.is_empty();
                    k.buffered.push(n as u32);
                    if first {
                        let m = Msg { call: id, peer: c.peer.clone(), kind: Kind::Ice(dev) };
                        self.send_next(Some(m));
                    }
                }
            }
            COp::Accepted(right) => {
                if right && dir == Dir::Outgoing {
                    match k.st {
                        Cst::Connecting => {
                            k.st = Cst::AcceptedConnecting;
                            c.st = St::AcceptedConnecting;
                            self.seen.insert("accepted before connected");
                            self.only(dev);
                        }
                        Cst::Connected => {
                            self.only(dev);
                            self.first_accepted(dev);
                        }
                        _ => {}
                    }
                }
            }
            COp::Hangup(right, kind, d) => {
                if right && up {
                    self.hung_up(dev, hangup(kind, d));
                }
            }
            COp::Status(right, a, b, d, _) => {
                let f = (a, b, d);
                if right && up && k.sender.is_none_or(|(s, _)| seq > s) {
                    let changed = k.sender.is_none_or(|(_, o)| o != f);
                    k.sender = Some((seq, f));
                    if matches!(k.st, Cst::Accepted | Cst::Reconnecting) && changed && c.st >= St::Accepted && is_active {
                        self.flags(f);
                    }
                }
            }
            COp::Rate(right, bps, _) => {
                if right && up && k.receiver.is_none_or(|(s, _)| seq > s) {
                    let changed = k.receiver.is_none_or(|(_, o)| o != bps as u64);
                    k.receiver = Some((seq, bps as u64));
                    if matches!(k.st, Cst::Accepted | Cst::Reconnecting) && changed {
                        k.remote = Some(bps as u64);
                        self.seen.insert("rate changed by peer");
                    }
                }
            }
            COp::Tick => {
                if k.sent != pb::Message::default() {
                    self.out.push(format!("tick {id} {dev} {:?}", k.sent));
                }
            }
            COp::Send(a, b, d) => {
                if matches!(k.st, Cst::Connected | Cst::Accepted | Cst::Reconnecting) {
                    self.rtp(id, dev, |m| {
                        let p = m.sender_status;
                        m.sender_status = Some(pb::SenderStatus {
                            id: Some(id),
                            video_enabled: a.or(p.and_then(|p| p.video_enabled)),
                            sharing_screen: b.or(p.and_then(|p| p.sharing_screen)),
                            audio_enabled: d.or(p.and_then(|p| p.audio_enabled)),
                        })
                    });
                }
            }
            COp::Low(low) => {
                if up && k.low != low {
                    k.low = low;
                    let r = if low { 300_000 } else { 2_000_000 };
                    self.rtp(id, dev, |m| {
                        m.receiver_status = Some(pb::ReceiverStatus { id: Some(id), max_bitrate_bps: Some(r) })
                    });
                }
            }
        }
    }
}

fn peer(p: u8) -> String {
    format!("peer{}", p % 2)
}

fn removal(n: u32) -> signaling::IceCandidate {
    signaling::IceCandidate::from_removed_address(address(n)).unwrap()
}

struct Run {
    d: Device,
    m: Model,
    high: u64,
    low: u64,
    old: Option<u64>,
    early: Option<u64>,
    read: usize,
    read_rtp: usize,
    last_rtp: BTreeMap<(u64, u32), pb::Message>,
    ice_no: u32,
    seqs: BTreeMap<(u64, u32), u64>,
    idle: u32,
}

fn line(r: &Rec) -> Option<String> {
    Some(match r {
        Rec::Start { peer, call, dir, .. } => format!("start {call} {dir} {peer}"),
        Rec::Event { call, ev, .. } => format!("event {call} {ev}"),
        Rec::Route { route, .. } => format!("route {}", route.local_relayed),
        Rec::SendOffer { call, .. } => format!("offer {call}"),
        Rec::SendAnswer { call, device, .. } => format!("answer {call} {device}"),
        Rec::SendIce { call, device, ice, .. } => {
            let l: Vec<String> = ice
                .iter()
                .map(|o| signaling::IceCandidate::new(o.clone()).v3_sdp().unwrap_or_default())
                .collect();
            format!("ice {call} {device:?} {l:?}")
        }
        Rec::SendHangup { call, hangup, .. } => format!("hangup {call} {hangup}"),
        Rec::SendBusy { call, .. } => format!("busy {call}"),
        Rec::ConnectMedia { ctx: _, .. } => return None,
        Rec::DisconnectMedia { ctx } => format!("disconnect {}", ctx.trim_start_matches("ctx")),
        Rec::Expired { call, .. } => format!("expired {call}"),
        Rec::Ended { call, reason, .. } => format!("ended {call} {reason}"),
        _ => return None,
    })
}

impl Run {
    fn new() -> Run {
        Run {
            d: Device::new(),
            m: Model::new(),
            high: 1_000_000,
            low: 1_000_000,
            old: None,
            early: None,
            read: 0,
            read_rtp: 0,
            last_rtp: BTreeMap::new(),
            ice_no: 0,
            seqs: BTreeMap::new(),
            idle: 0,
        }
    }
    fn above(&mut self) -> u64 {
        self.high += 10;
        self.high
    }
    fn below(&mut self) -> u64 {
        self.low -= 10;
        self.low
    }
    fn target(&mut self, to: To) -> Option<u64> {
        match to {
            To::Active => self.m.call.as_ref().map(|c| c.id),
            To::Old => self.old,
            To::Early => Some(match self.early {
                Some(e) => e,
                None => {
                    let e = self.above();
                    self.early = Some(e);
                    e
                }
            }),
        }
    }
    /// Whether the call has been offered to anyone who could be answering.
    fn reachable(&self) -> bool {
        self.m
            .call
            .as_ref()
            .is_some_and(|c| c.dir == Dir::Incoming || c.offer_sent)
    }

    /// Does the operation on both; false when it makes no sense now.
    fn apply(&mut self, op: &Op) -> bool {
        let active = self.m.call.as_ref().map(|c| (c.id, c.dir, c.st));
        match *op {
            Op::Call { peer: p } => {
                let id = self.above();
                self.early = None;
                let _ = self
                    .d
                    .cm
                    .create_outgoing_call(peer(p), CallId::new(id), CallMediaType::Audio, 1);
                if active.is_some() {
                    self.m.out.push(format!("ended {id} {}", End::InternalFailure));
                } else {
                    self.m.start(id, peer(p), Dir::Outgoing, None);
                }
            }
            Op::Proceed { low } => {
                let Some(c) = self.m.call.as_mut().filter(|c| c.st == St::Waiting) else { return false };
                let config = CallConfig {
                    data_mode: if low { DataMode::Low } else { DataMode::Normal },
                    ..CallConfig::default()
                };
                let id = c.id;
                let _ = self.d.cm.proceed(CallId::new(id), format!("ctx{id}"), config, None);
                c.st = St::Connecting;
                c.proceeded = true;
                c.low = low;
                let kind = match c.offer.take() {
                    None => {
                        c.offer_sent = true;
                        Kind::Offer
                    }
                    Some((from, rate)) => {
                        let mut k = Conn::new(low, rate);
                        k.removed = std::mem::take(&mut c.stored_ice);
                        c.conns.insert(from, k);
                        c.active = Some(from);
                        Kind::Answer(from)
                    }
                };
                let m = Msg { call: id, peer: c.peer.clone(), kind };
                self.m.send_next(Some(m));
            }
            Op::Accept => {
                let Some((id, Dir::Incoming, st)) = active else { return false };
                let _ = self.d.cm.accept_call(CallId::new(id));
                if st == St::Connected {
                    let dev = self.m.call.as_ref().unwrap().active.unwrap();
                    self.m.first_accepted(dev);
                }
            }
            Op::Drop(right) => {
                let id = match (right, self.old) {
                    (false, Some(o)) => o,
                    _ => match active {
                        Some(a) => a.0,
                        None => return false,
                    },
                };
                let _ = self.d.cm.drop_call(CallId::new(id));
                if active.is_some_and(|a| a.0 == id) {
                    self.m.end(false, Some(End::AppDroppedCall));
                }
            }
            Op::Hangup => {
                let _ = self.d.cm.hangup();
                if active.is_some() {
                    self.m.end(true, Some(End::LocalHangup));
                }
            }
            Op::Offer { id, peer: p, from, old, rate } => {
                let id = match id {
                    NewId::Above => self.above(),
                    NewId::Below => self.below(),
                    NewId::Same => match active {
                        Some((i, Dir::Outgoing, _)) => i,
                        _ => self.above(),
                    },
                    NewId::Early => match self.early.take() {
                        Some(e) => e,
                        None => self.above(),
                    },
                };
                let mut params = v4(id);
                params.max_bitrate_bps = rate.map(|r| r as u64);
                let o = signaling::Offer::from_v4(CallMediaType::Video, params).unwrap();
                let _ = self.d.cm.received_offer(
                    peer(p),
                    CallId::new(id),
                    received_offer(o, if old { 61 } else { 59 }, from as u32, 1),
                );
                self.m.offered(id, peer(p), from as u32, old, rate.map(|r| r as u64));
            }
            Op::Answer { right, peer: p, from, rate } => {
                let Some((id, Dir::Outgoing, st)) = active else { return false };
                if !self.reachable() {
                    return false;
                }
                let to = if right { id } else { id ^ 1 };
                let mut params = v4(from as u64);
                params.max_bitrate_bps = rate.map(|r| r as u64);
                let a = signaling::Answer::from_v4(params).unwrap();
                let _ = self
                    .d
                    .cm
                    .received_answer(peer(p), CallId::new(to), received_answer(a, from as u32));
                let c = self.m.call.as_mut().unwrap();
                if right && c.peer == peer(p) && matches!(st, St::Connecting | St::Connected) {
                    let low = c.low;
                    c.conns
                        .entry(from as u32)
                        .or_insert_with(|| Conn::new(low, rate.map(|r| r as u64)));
                    if c.conns.len() > 1 {
                        self.m.seen.insert("several devices ringing");
                    }
                }
            }
            Op::Ice { to, peer: p, from } => {
                let Some(id) = self.target(to) else { return false };
                let for_active = active.is_some_and(|a| a.0 == id);
                if for_active && !self.reachable() {
                    return false;
                }
                self.ice_no += 1;
                let n = self.ice_no;
                let _ = self.d.cm.received_ice(
                    peer(p),
                    CallId::new(id),
                    signaling::ReceivedIce {
                        ice: signaling::Ice { candidates: vec![removal(n)] },
                        sender_device_id: from as u32,
                    },
                );
                if for_active {
                    let c = self.m.call.as_mut().unwrap();
                    if c.peer == peer(p) {
                        if c.offer.is_some() {
                            c.stored_ice.push(n);
                        } else if let Some(k) = c.conns.get_mut(&(from as u32)) {
                            if k.st != Cst::Failed {
                                k.removed.push(n);
                            }
                        } else {
                            self.m.seen.insert("candidates from a device without a connection");
                        }
                    }
                } else if self.m.can_save() {
                    match &mut self.m.pending {
                        Pending::Ice(_, i, list) if *i == id => list.push(n),
                        Pending::Hangup(_, i, ..) if *i == id => {}
                        x => *x = Pending::Ice(peer(p), id, vec![n]),
                    }
                }
            }
            Op::RemoteHangup { to, peer: p, from, kind, dev } => {
                let Some(id) = self.target(to) else { return false };
                let for_active = active.is_some_and(|a| a.0 == id);
                if for_active && !self.reachable() {
                    return false;
                }
                let h = hangup(kind, dev);
                let _ = self.d.cm.received_hangup(
                    peer(p),
                    CallId::new(id),
                    signaling::ReceivedHangup { hangup: h, sender_device_id: from as u32 },
                );
                if for_active {
                    if self.m.call.as_ref().unwrap().peer == peer(p) {
                        self.m.hung_up(from as u32, h);
                    }
                } else if self.m.can_save() {
                    self.m.pending = Pending::Hangup(peer(p), id, from as u32, h);
                }
            }
            Op::Busy { right, peer: p, from } => {
                let Some((id, Dir::Outgoing, _)) = active else { return false };
                if !self.reachable() {
                    return false;
                }
                let to = if right { id } else { id ^ 1 };
                let _ = self.d.cm.received_busy(
                    peer(p),
                    CallId::new(to),
                    signaling::ReceivedBusy { sender_device_id: from as u32 },
                );
                let c = self.m.call.as_ref().unwrap();
                if right && c.peer == peer(p) {
                    if c.active.is_some_and(|a| a != from as u32) {
                        self.m.seen.insert("busy from another device");
                    } else {
                        self.m.seen.insert("busy passed on");
                        let h = signaling::Hangup::BusyOnAnotherDevice(from as u32);
                        self.m.rtp_hangup(h, Some(from as u32));
                        self.m.signal_hangup(h);
                        self.m.end(false, Some(End::RemoteBusy));
                    }
                }
            }
            Op::Sent => {
                let Some(id) = self.m.in_flight else { return false };
                let _ = self.d.cm.message_sent(CallId::new(id));
                self.m.in_flight = None;
                self.m.send_next(None);
            }
            Op::NotSent => {
                let Some(id) = self.m.in_flight else { return false };
                let _ = self.d.cm.message_send_failure(CallId::new(id));
                if active.is_some_and(|a| a.0 == id) {
                    let st = active.unwrap().2;
                    if matches!(st, St::Connected | St::Accepted | St::Reconnecting)
                        && matches!(self.m.last, Some(Kind::Ice(_) | Kind::Late(..)))
                    {
                        self.m.seen.insert("candidates not sent");
                    } else {
                        self.m.fail(End::SignalingFailure);
                    }
                }
                self.m.in_flight = None;
                self.m.send_next(None);
            }
            Op::Parent(n) => {
                let Some(c) = self.m.call.as_mut() else { return false };
                if c.dir != Dir::Outgoing || !c.proceeded {
                    return false;
                }
                let Ok(call) = self.d.cm.active_call() else { return true };
                let Ok(mut p) = call.get_parent_connection() else { return true };
                drop(call);
                let _ = p.inject_local_ice_candidate(ice(n as u32), false, "", None);
                let first = c.parent_buffered.is_empty();
                c.parent_buffered.push(n as u32);
                if first {
                    let m = Msg { call: c.id, peer: c.peer.clone(), kind: Kind::Ice(0) };
                    self.m.send_next(Some(m));
                }
            }
            Op::Conn(dev, cop) => {
                let Some(c) = self.m.call.as_ref() else { return false };
                let dev = dev as u32;
                if !c.conns.contains_key(&dev) {
                    return false;
                }
                if matches!(cop, COp::Accepted(_)) && c.dir == Dir::Incoming {
                    return false;
                }
                let id = c.id;
                let seq = {
                    let e = self.seqs.entry((id, dev)).or_insert(100);
                    match cop {
                        COp::Status(.., d) | COp::Rate(.., d) => {
                            let s = (*e as i64 + d as i64).max(1) as u64;
                            *e = (*e).max(s);
                            s
                        }
                        _ => 0,
                    }
                };
                let Some(mut k) = self.d.conn(dev) else { return true };
                let cid = |right: bool| Some(if right { id } else { id ^ 1 });
                let _ = match cop {
                    COp::IceUp => k.inject_ice_connected(),
                    COp::IceFail => k.inject_ice_failed(),
                    COp::IceDown => k.inject_ice_disconnected(),
                    COp::Route(r) => k.inject_ice_network_route_changed(route(r)),
                    COp::LocalIce(n, force) => k.inject_local_ice_candidate(ice(n as u32), force, "", None),
                    COp::Tick => k.tick(5),
                    COp::Send(video_enabled, sharing_screen, audio_enabled) => {
                        k.update_sender_status(signaling::SenderStatus { video_enabled, sharing_screen, audio_enabled })
                    }
                    COp::Low(low) => k.inject_update_data_mode(if low { DataMode::Low } else { DataMode::Normal }),
                    _ => {
                        k.inject_received_via_rtp_data(&rtp_message(|m| match cop {
                            COp::Accepted(right) => m.accepted = Some(pb::Accepted { id: cid(right) }),
                            COp::Hangup(right, kind, d) => {
                                let (t, d) = hangup(kind, d).to_type_and_device_id();
                                m.hangup =
                                    Some(pb::Hangup { id: cid(right), r#type: Some(t as i32), device_id: d })
                            }
                            COp::Status(right, video_enabled, sharing_screen, audio_enabled, _) => {
                                m.seqnum = Some(seq);
                                m.sender_status = Some(pb::SenderStatus {
                                    id: cid(right),
                                    video_enabled,
                                    sharing_screen,
                                    audio_enabled,
                                })
                            }
                            COp::Rate(right, bps, _) => {
                                m.seqnum = Some(seq);
                                m.receiver_status =
                                    Some(pb::ReceiverStatus { id: cid(right), max_bitrate_bps: Some(bps as u64) })
                            }
                            _ => unreachable!(),
                        }));
                        Ok(())
                    }
                };
                self.m.conn(dev, cop, seq);
            }
            Op::Timeout => {
                let Ok(mut call) = self.d.cm.active_call() else { return false };
                let _ = call.inject_call_timeout();
                if active.is_some_and(|a| a.2 < St::Accepted) {
                    self.m.end(true, Some(End::Timeout));
                }
            }
            Op::Reset => {
                let _ = self.d.cm.reset();
                if active.is_some() {
                    self.m.end(true, None);
                }
                self.m.queue.clear();
                self.m.in_flight = None;
            }
        }
        for m in std::mem::take(&mut self.m.later) {
            self.m.send_next(Some(m));
        }
        true
    }

    fn settle(&mut self) -> Res {
        self.d.flush()?;
        // Synchronizing doesn't return if the call is ending meanwhile, so
        // it has to be gone first.
        let want = self.m.call.as_ref().map(|c| c.id);
        let end = Instant::now() + Duration::from_secs(3);
        while self.d.active_id() != want && Instant::now() < end {
            std::thread::sleep(Duration::from_micros(200));
        }
        self.d.flush()?;
        let mut cm = self.d.cm.clone();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let _ = cm.synchronize();
            let _ = tx.send(());
        });
        if rx.recv_timeout(Duration::from_millis(1500)).is_err() {
            log::warn!("not synchronized");
        }
        self.d.flush()
    }

    /// What was observed since the last step, without resent messages.
    fn observed(&self) -> (Vec<String>, usize, usize, BTreeMap<(u64, u32), pb::Message>) {
        let i = self.d.sh.lock();
        let mut v: Vec<String> = i.log[self.read..]
            .iter()
            .filter(|r| r.call().is_none_or(|c| c < MARK))
            .filter_map(line)
            .collect();
        let mut last = self.last_rtp.clone();
        for (call, dev, h, m) in &i.rtp[self.read_rtp..] {
            if (h.pt, h.ssrc) != (101, 0xD) {
                v.push(format!("RTP data sent with {h:?}"));
            }
            if last.get(&(*call, *dev)) != Some(m) {
                v.push(format!("rtp {call} {dev} {m:?}"));
                last.insert((*call, *dev), m.clone());
            } else {
                v.push(format!("tick {call} {dev} {m:?}"));
            }
        }
        for r in &i.log[self.read..] {
            if let Rec::ConnectMedia { .. } = r {
                v.push("connect".into());
            }
        }
        (v, i.log.len(), i.rtp.len(), last)
    }

    fn check(&mut self, step: usize, op: &Op) -> Res {
        let mut want: Vec<String> = std::mem::take(&mut self.m.out)
            .into_iter()
            .map(|s| if s.starts_with("connect ") { "connect".into() } else { s })
            .collect();
        want.sort();
        let ticks: BTreeSet<String> = want.iter().filter(|s| s.starts_with("tick ")).cloned().collect();
        want.retain(|s| !s.starts_with("tick "));
        for id in std::mem::take(&mut self.m.ended) {
            self.old = Some(id);
        }
        let end = Instant::now() + Duration::from_secs(6);
        loop {
            self.settle()?;
            let (got, read, read_rtp, last) = self.observed();
            let got_ticks: BTreeSet<String> = got.iter().filter(|s| s.starts_with("tick ")).cloned().collect();
            let mut cmp: Vec<String> = got.iter().filter(|s| !s.starts_with("tick ")).cloned().collect();
            cmp.sort();
            let mut why = None;
            if cmp != want || !ticks.is_subset(&got_ticks) {
                let extra: Vec<_> = minus(&cmp, &want);
                let mut missing: Vec<_> = minus(&want, &cmp);
                missing.extend(ticks.difference(&got_ticks).cloned());
                why = Some(format!("missing {missing:?}, unexpected {extra:?}, in order {got:?}"));
            } else if let Err(e) = self.state() {
                why = Some(e);
            }
            match why {
                None => {
                    self.read = read;
                    self.read_rtp = read_rtp;
                    self.last_rtp = last;
                    return Ok(());
                }
                Some(why) if Instant::now() > end => {
                    fail!("step {step}, {op:?}: {why}; the model is in {:?}", self.m.call)
                }
                _ => std::thread::sleep(Duration::from_millis(1)),
            }
        }
    }

    fn state(&self) -> Result<(), String> {
        let id = self.d.active_id();
        if id != self.m.call.as_ref().map(|c| c.id) {
            return Err(format!("the active call is {id:?}"));
        }
        if let Some(c) = &self.m.call {
            for (dev, k) in &c.conns {
                let Some(pc) = self.d.pc(c.id, *dev) else {
                    return Err(format!("no connection to device {dev}"));
                };
                if pc.outgoing_audio_enabled() != k.media {
                    return Err(format!("device {dev}: outgoing media is {}", !k.media));
                }
                let want: Vec<_> = k.removed.iter().map(|n| address(*n)).collect();
                let got = pc.removed_ice_candidates();
                if got != want {
                    return Err(format!("device {dev}: candidates {got:?} instead of {want:?}"));
                }
                let (got, want) = (pc.max_bitrate_bps(), k.rate());
                if k.st != Cst::Failed && got != Some(want as i32) {
                    return Err(format!("device {dev}: sending at up to {got:?} instead of {want}"));
                }
            }
        }
        Ok(())
    }
    /// WebRTC reports the remote's media as soon as there is a connection.
    fn media(&mut self) {
        let Some(c) = &self.m.call else { return };
        for dev in c.conns.keys() {
            let missing = || {
                self.d.sh.lock().log.iter().fold(0, |n, r| match r {
                    Rec::Create { call, device, kind } if *call == c.id && device == dev => {
                        n + (*kind != ConnectionType::OutgoingParent) as i32
                    }
                    Rec::CreateMedia { call, device } if *call == c.id && device == dev => n - 1,
                    _ => n,
                }) > 0
            };
            if missing() && let Some(mut k) = self.d.conn(*dev) {
                let _ = k.inject_received_incoming_media(MediaStream::new(webrtc::Arc::null()));
                // Reporting the same stream twice would be a fault of ours.
                let end = Instant::now() + Duration::from_secs(2);
                while missing() && Instant::now() < end {
                    std::thread::sleep(Duration::from_micros(200));
                }
                if missing() && std::env::var_os("RR_LOG").is_some() {
                    eprintln!("media of {dev} not taken");
                }
            }
        }
    }
}

fn minus(a: &[String], b: &[String]) -> Vec<String> {
    let mut b: Vec<&String> = b.iter().collect();
    a.iter()
        .filter(|x| match b.iter().position(|y| y == x) {
            Some(i) => {
                b.remove(i);
                false
            }
            None => true,
        })
        .cloned()
        .collect()
}

pub fn run(ops: &[Op], o: &mut Obs, wanted: &[&'static str]) -> Res {
    let mut r = Run::new();
    let mut done = 0;
    for (i, op) in ops.iter().enumerate() {
        if !r.apply(op) {
            r.idle += 1;
            continue;
        }
        done += 1;
        let res = r.check(i, op);
        if res.is_err() {
            return res;
        }
        r.media();
    }
    for s in &r.m.seen {
        o.label(s);
    }
    o.nontrivial_if(done > 0 && wanted.iter().any(|w| r.m.seen.contains(w)));
    // Let go of everything.
    let _ = r.d.cm.reset();
    r.d.flush()?;
    let started: BTreeSet<u64> = r
        .d
        .log()
        .iter()
        .filter_map(|r| if let Rec::Start { call, .. } = r { Some(*call) } else { None })
        .collect();
    for id in started {
        r.d.concluded(id);
    }
    ensure!(!r.d.cm.busy(), "busy after hanging up");
    r.d.close();
    Ok(())
}

fn dev() -> impl Strategy<Value = u8> {
    prop_oneof![4 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)]
}
fn peer_no() -> impl Strategy<Value = u8> {
    prop_oneof![6 => Just(0u8), 1 => Just(1u8)]
}
fn right() -> impl Strategy<Value = bool> {
    prop::bool::weighted(0.9)
}
fn flag() -> impl Strategy<Value = Option<bool>> {
    prop_oneof![1 => Just(None), 2 => any::<bool>().prop_map(Some)]
}
fn rate() -> impl Strategy<Value = u32> {
    prop_oneof![0u32..100_000, 0u32..3_000_000, Just(30_000), Just(1_000_000), Just(300_000)]
}
fn newer() -> impl Strategy<Value = i8> {
    prop_oneof![5 => 1i8..4, 1 => Just(0i8), 2 => -5i8..0]
}
pub fn status_op() -> impl Strategy<Value = COp> {
    prop_oneof![
        3 => (right(), flag(), flag(), flag(), newer()).prop_map(|(r, a, b, c, n)| COp::Status(r, a, b, c, n)),
        3 => (right(), rate(), newer()).prop_map(|(r, b, n)| COp::Rate(r, b, n)),
        2 => (flag(), flag(), flag()).prop_map(|(a, b, c)| COp::Send(a, b, c)),
        2 => any::<bool>().prop_map(COp::Low),
        2 => any::<bool>().prop_map(COp::Route),
        1 => Just(COp::Tick),
        2 => Just(COp::IceDown),
        2 => Just(COp::IceUp),
    ]
}
pub fn conn_op() -> impl Strategy<Value = COp> {
    prop_oneof![
        6 => Just(COp::IceUp),
        1 => Just(COp::IceFail),
        2 => Just(COp::IceDown),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(n, f)| COp::LocalIce(n, f)),
        5 => right().prop_map(COp::Accepted),
        2 => (right(), 0u8..5, 0u8..4).prop_map(|(r, k, d)| COp::Hangup(r, k, d)),
        4 => status_op(),
    ]
}
fn offer_op() -> impl Strategy<Value = Op> {
    (
        prop_oneof![4 => Just(NewId::Above), 4 => Just(NewId::Below), 1 => Just(NewId::Same), 2 => Just(NewId::Early)],
        peer_no(),
        dev(),
        prop::bool::weighted(0.05),
        prop::option::of(rate()),
    )
        .prop_map(|(id, peer, from, old, rate)| Op::Offer { id, peer, from, old, rate })
}
fn answer_op() -> impl Strategy<Value = Op> {
    (right(), peer_no(), dev(), prop::option::of(rate()))
        .prop_map(|(right, peer, from, rate)| Op::Answer { right, peer, from, rate })
}
fn to() -> impl Strategy<Value = To> {
    prop_oneof![4 => Just(To::Active), 2 => Just(To::Early), 1 => Just(To::Old)]
}
pub fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => peer_no().prop_map(|peer| Op::Call { peer }),
        5 => prop::bool::weighted(0.2).prop_map(|low| Op::Proceed { low }),
        5 => Just(Op::Accept),
        1 => right().prop_map(Op::Drop),
        2 => Just(Op::Hangup),
        5 => offer_op(),
        5 => answer_op(),
        4 => (to(), peer_no(), dev()).prop_map(|(to, peer, from)| Op::Ice { to, peer, from }),
        2 => (to(), peer_no(), dev(), 0u8..5, 0u8..4)
            .prop_map(|(to, peer, from, kind, dev)| Op::RemoteHangup { to, peer, from, kind, dev }),
        1 => (right(), peer_no(), dev()).prop_map(|(right, peer, from)| Op::Busy { right, peer, from }),
        6 => Just(Op::Sent),
        1 => Just(Op::NotSent),
        2 => any::<u8>().prop_map(Op::Parent),
        14 => (dev(), conn_op()).prop_map(|(d, c)| Op::Conn(d, c)),
        1 => Just(Op::Timeout),
        1 => Just(Op::Reset),
    ]
}

/// The usual course of an outgoing call, as far as `n` says.
pub fn outgoing(peer: u8, devs: Vec<u8>, n: usize) -> Vec<Op> {
    let mut v = vec![Op::Call { peer }, Op::Proceed { low: false }, Op::Sent];
    for d in &devs {
        v.push(Op::Answer { right: true, peer, from: *d, rate: None });
    }
    for d in &devs {
        v.push(Op::Conn(*d, COp::IceUp));
    }
    v.push(Op::Conn(devs[0], COp::Accepted(true)));
    v.push(Op::Sent);
    v.truncate(n);
    v
}
pub fn incoming(id: NewId, peer: u8, from: u8, n: usize) -> Vec<Op> {
    let mut v = vec![
        Op::Offer { id, peer, from, old: false, rate: None },
        Op::Proceed { low: false },
        Op::Sent,
        Op::Conn(from, COp::IceUp),
        Op::Accept,
    ];
    v.truncate(n);
    v
}

pub fn some_outgoing() -> impl Strategy<Value = Vec<Op>> {
    (peer_no(), prop::sample::subsequence(vec![1u8, 2, 3], 1..4).prop_shuffle(), 1usize..12)
        .prop_map(|(p, d, n)| outgoing(p, d, n))
}
pub fn some_incoming() -> impl Strategy<Value = Vec<Op>> {
    (peer_no(), dev(), 1usize..6, any::<bool>()).prop_map(|(p, d, n, early)| {
        incoming(if early { NewId::Early } else { NewId::Above }, p, d, n)
    })
}
fn some() -> impl Strategy<Value = Vec<Op>> {
    prop_oneof![
        3 => some_outgoing(),
        3 => some_incoming(),
        4 => prop::collection::vec(op(), 1..8),
    ]
}
fn flat(max: usize) -> impl Strategy<Value = Vec<Op>> {
    prop::collection::vec(some(), 1..max).prop_map(|v| v.into_iter().flatten().collect())
}

/// Calls in any state meeting offers.
pub fn collisions() -> impl Strategy<Value = Vec<Op>> {
    let busy = prop_oneof![some_outgoing(), some_incoming()];
    let more = prop_oneof![
        5 => offer_op().prop_map(|o| vec![o]),
        1 => op().prop_map(|o| vec![o]),
        1 => some_incoming(),
    ];
    prop::collection::vec((busy, prop::collection::vec(more, 1..4)), 1..4)
        .prop_map(|v| v.into_iter().flat_map(|(a, b)| a.into_iter().chain(b.into_iter().flatten())).collect())
}
/// Outgoing calls to several devices.
pub fn forked() -> impl Strategy<Value = Vec<Op>> {
    let ops = prop_oneof![
        4 => answer_op(),
        3 => (dev(), prop_oneof![
            4 => Just(COp::IceUp),
            1 => Just(COp::IceDown),
            2 => Just(COp::IceFail),
            3 => right().prop_map(COp::Accepted),
            2 => (right(), 0u8..5, 0u8..4).prop_map(|(r, k, d)| COp::Hangup(r, k, d)),
        ]).prop_map(|(d, c)| Op::Conn(d, c)),
        1 => (right(), peer_no(), dev()).prop_map(|(right, peer, from)| Op::Busy { right, peer, from }),
        2 => (Just(To::Active), peer_no(), dev(), 0u8..5, 0u8..4)
            .prop_map(|(to, peer, from, kind, dev)| Op::RemoteHangup { to, peer, from, kind, dev }),
        2 => (Just(To::Active), peer_no(), dev()).prop_map(|(to, peer, from)| Op::Ice { to, peer, from }),
        3 => Just(Op::Sent),
    ];
    prop::collection::vec((some_outgoing(), prop::collection::vec(ops, 0..12)), 1..3)
        .prop_map(|v| v.into_iter().flat_map(|(a, b)| a.into_iter().chain(b)).collect())
}
/// A call that is or becomes accepted.
pub fn talking() -> impl Strategy<Value = Vec<Op>> {
    let ops = || {
        prop::collection::vec(
            prop_oneof![8 => (dev(), status_op()).prop_map(|(d, c)| Op::Conn(d, c)), 1 => op()],
            0..12,
        )
    };
    (any::<bool>(), dev(), 0usize..7, prop::bool::weighted(0.2), ops(), ops()).prop_map(|(out, d, at, low, a, b)| {
        let mut v = if out { outgoing(0, vec![d], 99) } else { incoming(NewId::Above, 0, d, 99) };
        v[1] = Op::Proceed { low };
        let fix = |o: Op| match o {
            Op::Conn(x, c) if x != 3 => Op::Conn(d, c),
            o => o,
        };
        let at = at.min(v.len());
        let tail = v.split_off(at);
        v.extend(a.into_iter().map(fix));
        v.extend(tail);
        v.extend(b.into_iter().map(fix));
        v
    })
}
/// A call brought to its end in one of many ways.
pub fn ending() -> impl Strategy<Value = Vec<Op>> {
    let early = || {
        prop_oneof![
            2 => (peer_no(), dev()).prop_map(|(peer, from)| Op::Ice { to: To::Early, peer, from }),
            1 => (peer_no(), dev(), 0u8..5, 0u8..4)
                .prop_map(|(peer, from, kind, dev)| Op::RemoteHangup { to: To::Early, peer, from, kind, dev }),
        ]
    };
    let inc = (
        prop::collection::vec(early(), 0..4),
        prop::collection::vec(op(), 0..2),
        peer_no(),
        dev(),
        1usize..6,
    )
        .prop_map(|(mut a, b, p, d, n)| {
            let id = if a.is_empty() { NewId::Above } else { NewId::Early };
            a.extend(b);
            a.extend(incoming(id, p, d, n));
            (a, p, vec![d])
        });
    let out = (
        peer_no(),
        prop::sample::subsequence(vec![1u8, 2, 3], 1..4).prop_shuffle(),
        1usize..12,
    )
        .prop_map(|(p, d, n)| (outgoing(p, d.clone(), n), p, d));
    let rest = prop::collection::vec(prop_oneof![3 => Just(Op::Sent), 2 => op(), 1 => Just(Op::NotSent)], 0..5);
    let more = prop::collection::vec(
        prop_oneof![
            3 => (dev(), conn_op()).prop_map(|(d, c)| Op::Conn(d, c)),
            1 => op(),
            2 => any::<u8>().prop_map(Op::Parent),
            2 => (peer_no(), dev()).prop_map(|(peer, from)| Op::Ice { to: To::Active, peer, from }),
            1 => Just(Op::Sent),
        ],
        0..5,
    );
    let one = (prop_oneof![inc, out], more, any::<prop::sample::Index>(), right(), 0u8..12, 0u8..5, 0u8..4, rest).prop_map(
        |((mut v, peer, devs), more, i, right, how, kind, dev, rest)| {
            let from = devs[i.index(devs.len())];
            v.extend(more);
            v.push(match how {
                0 | 1 => Op::RemoteHangup { to: To::Active, peer, from, kind, dev },
                2 | 3 => Op::Conn(from, COp::Hangup(right, kind, dev)),
                4 => Op::Busy { right, peer, from },
                5 => Op::Timeout,
                6 | 7 => Op::Conn(from, COp::IceFail),
                8 => Op::NotSent,
                9 => Op::Hangup,
                10 => Op::Drop(right),
                _ => Op::Reset,
            });
            v.extend(rest);
            v
        },
    );
    prop::collection::vec(one, 1..4).prop_map(|v| v.into_iter().flatten().collect())
}
pub fn anything() -> impl Strategy<Value = Vec<Op>> {
    flat(6)
}

/// Any of the histories above.
pub fn some_history() -> impl Strategy<Value = Vec<Op>> {
    prop_oneof![collisions(), forked(), talking(), ending(), anything()]
}
