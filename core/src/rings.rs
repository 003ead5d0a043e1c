//! C26: rings for group calls, and which client of the call manager gets what.
use std::time::{Duration, Instant};

use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par, waiting};
use prost::Message as _;
use proptest::prelude::*;
use ringrtc::{
    common::{CallEndReason, CallMediaType},
    core::{
        call_manager::{OpaqueRingValidationError, validate_call_message_as_opaque_ring},
        group_call::{ConnectionState, JoinState, RingCancelReason, RingId, RingUpdate, SignalingMessageUrgency},
    },
    protobuf::{
        group_call::{DeviceToDevice, device_to_device::MediaKey},
        signaling::{
            CallMessage,
            call_message::{RingIntention, RingResponse},
        },
    },
    webrtc::{
        self,
        media::{AudioTrack, VideoTrack},
        sim::media::{FAKE_AUDIO_TRACK, FAKE_VIDEO_TRACK},
    },
};
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};

use crate::plat::{Device, LONG, Rec};

/// As set by main.
const RINGS: Duration = Duration::from_secs(1);
const OLD: u32 = 60_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part {
    group: Option<u8>,
    what: Option<i32>,
    ring: Option<i64>,
}
impl Part {
    fn all(&self) -> Option<(u8, i32, i64)> {
        Some((self.group?, self.what?, self.ring?))
    }
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Msg {
    intention: Option<Part>,
    response: Option<Part>,
    /// A media key, for a group or none.
    key: Option<Option<u8>>,
}
fn group(g: u8) -> Vec<u8> {
    vec![0x60 + g, 1, 2, 3, g]
}
fn user(u: u8) -> Vec<u8> {
    vec![0xa0 + u; 16]
}
impl Msg {
    fn message(&self) -> CallMessage {
        CallMessage {
            group_call_message: self.key.map(|g| DeviceToDevice {
                group_id: g.map(group),
                media_key: Some(MediaKey { demux_id: Some(0x50), ratchet_counter: Some(3), secret: Some(vec![7; 32]) }),
                ..Default::default()
            }),
            ring_intention: self
                .intention
                .as_ref()
                .map(|p| RingIntention { group_id: p.group.map(group), r#type: p.what, ring_id: p.ring }),
            ring_response: self
                .response
                .as_ref()
                .map(|p| RingResponse { group_id: p.group.map(group), r#type: p.what, ring_id: p.ring }),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Say { from: u8, age: u32, msg: Msg },
    Garbage { from: u8, bytes: Vec<u8> },
    Me(u8),
    /// Declined (true), busy (false) or withdrawn without telling anyone.
    Cancel { group: u8, ring: i64, declined: Option<bool> },
    Call,
    Hangup,
    Create(u8),
    Connect(u8),
    Join(u8),
    Leave(u8),
    Disconnect(u8),
    Delete(u8),
    /// Rings get older by this many seconds.
    Age(u8),
    Wait(u16),
}

#[derive(Clone, Debug, PartialEq)]
enum Told {
    Ring(Vec<u8>, i64, Vec<u8>, RingUpdate),
    /// A ring response to a user: group, ring, type.
    Response(Vec<u8>, Option<Vec<u8>>, Option<i64>, Option<i32>),
    Connection(u32, ConnectionState),
    Joining(u32, bool),
    Ended(u32, CallEndReason),
    AskMembers(u32),
    Other(String),
}
fn told(r: &Rec) -> Option<Told> {
    Some(match r {
        Rec::Ring { group, ring, sender, update } => Told::Ring(group.clone(), *ring, sender.clone(), *update),
        Rec::CallMessage { to, message, urgency } => match CallMessage::decode(&message[..]) {
            Ok(CallMessage { ring_response: Some(r), ring_intention: None, group_call_message: None })
                if *urgency == SignalingMessageUrgency::HandleImmediately =>
            {
                Told::Response(to.clone(), r.group_id, r.ring_id, r.r#type)
            }
            m => Told::Other(format!("{m:?} to {to:?}, {urgency:?}")),
        },
        Rec::GroupConnection { client, state } => Told::Connection(*client, *state),
        Rec::GroupJoin { client, state: JoinState::Joining } => Told::Joining(*client, true),
        Rec::GroupJoin { client, state: JoinState::NotJoined(None) } => Told::Joining(*client, false),
        Rec::GroupEnded { client, reason } => Told::Ended(*client, *reason),
        Rec::AskMembers { client } => Told::AskMembers(*client),
        Rec::GroupJoin { .. } | Rec::GroupMessage { .. } | Rec::AdhocMessage { .. } | Rec::Peek { .. } => Told::Other(format!("{r:?}")),
        _ => return None,
    })
}

struct Ring {
    group: u8,
    ring: i64,
    from: u8,
    age: u32,
}
struct Client {
    id: u32,
    group: u8,
    /// The app hasn't disconnected it.
    active: bool,
    connected: bool,
    joining: bool,
    ring: Option<i64>,
    has_key: bool,
    ended: bool,
    deleted: bool,
}
struct World {
    d: Device,
    me: Option<u8>,
    rings: Vec<Ring>,
    timers: Vec<(Instant, Told, u8, i64, u8)>,
    clients: Vec<Client>,
    call: Option<u64>,
    seen: usize,
    expect: Vec<Told>,
    labels: Vec<&'static str>,
}

impl World {
    fn busy(&self) -> bool {
        self.call.is_some() || self.clients.iter().any(|c| c.joining)
    }
    fn forget(&mut self, group: u8, ring: i64, from: Option<u8>) {
        self.rings.retain(|r| !(r.group == group && r.ring == ring && from.is_none_or(|f| f == r.from)));
    }
    fn respond(&mut self, group_id: u8, ring: i64, what: i32) {
        if let Some(me) = self.me {
            self.expect.push(Told::Response(user(me), Some(group(group_id)), Some(ring), Some(what)));
        }
    }
    fn update(&mut self, g: u8, ring: i64, from: u8, update: RingUpdate) {
        self.expect.push(Told::Ring(group(g), ring, user(from), update));
    }
    fn end(&mut self, k: usize, reason: CallEndReason) {
        let c = &mut self.clients[k];
        if c.joining {
            c.joining = false;
            c.ring = None;
            self.expect.push(Told::Joining(c.id, false));
        }
        if c.connected {
            c.connected = false;
            c.ended = true;
            self.expect.push(Told::Connection(c.id, ConnectionState::NotConnected));
            self.expect.push(Told::Ended(c.id, reason));
        }
    }
    fn pick(&self, k: u8) -> Option<usize> {
        (!self.clients.is_empty()).then(|| self.clients.len() - 1 - k as usize % self.clients.len()).filter(|k| !self.clients[*k].deleted)
    }
    fn say(&mut self, from: u8, age: u32, msg: &Msg) {
        if let Some(p) = &msg.intention {
            match p.all() {
                Some((g, 0, ring)) => {
                    if age > OLD {
                        self.labels.push("an old ring");
                        self.update(g, ring, from, RingUpdate::ExpiredRequest);
                    } else if self.busy() {
                        self.labels.push("a ring while busy");
                        self.forget(g, ring, None);
                        self.respond(g, ring, 3);
                        self.update(g, ring, from, RingUpdate::BusyLocally);
                    } else {
                        self.rings.retain(|r| r.age < 60 && r.group != g);
                        self.rings.push(Ring { group: g, ring, from, age: 0 });
                        for c in &mut self.clients {
                            if c.group == g && c.active && !c.deleted && !c.joining && c.ring.is_none() {
                                c.ring = Some(ring);
                            }
                        }
                        self.update(g, ring, from, RingUpdate::Requested);
                        let late = Told::Ring(group(g), ring, user(from), RingUpdate::ExpiredRequest);
                        self.timers.push((Instant::now() + RINGS, late, g, ring, from));
                    }
                }
                Some((g, 1, ring)) => {
                    if self.rings.iter().any(|r| r.group == g && (r.ring, r.from) == (ring, from)) {
                        self.labels.push("a ring was cancelled");
                    }
                    self.forget(g, ring, Some(from));
                    self.update(g, ring, from, RingUpdate::CancelledByRinger);
                }
                _ => {}
            }
        } else if let Some(p) = &msg.response {
            if self.me != Some(from) {
                return;
            }
            let Some((g, what, ring)) = p.all() else { return };
            let update = match what {
                1 => RingUpdate::AcceptedOnAnotherDevice,
                2 => RingUpdate::DeclinedOnAnotherDevice,
                3 => RingUpdate::BusyOnAnotherDevice,
                _ => return,
            };
            if self.rings.iter().any(|r| r.group == g && r.ring == ring) {
                self.labels.push("another device answered a ring");
            }
            self.forget(g, ring, None);
            self.update(g, ring, from, update);
        } else if let Some(Some(g)) = msg.key {
            let Some(c) = self.clients.iter_mut().find(|c| c.group == g && c.active && !c.deleted) else { return };
            if !c.ended && !c.has_key {
                c.has_key = true;
                self.labels.push("a key reached its call");
                self.expect.push(Told::AskMembers(c.id));
            }
        }
    }
    /// Compares what the app has been told since the last time.
    fn check(&mut self) -> Res {
        self.d.barrier()?;
        for c in self.clients.iter().filter(|c| !c.ended) {
            let Some(client) = self.d.cm.verif_group_call_client(c.id) else { fail!("client {} is gone", c.id) };
            let (tx, rx) = std::sync::mpsc::channel();
            client.verif_observer(move |_| {
                let _ = tx.send(());
            });
            ensure!(rx.recv_timeout(LONG).is_ok(), "client {} has stopped", c.id);
        }
        let want = std::mem::take(&mut self.expect);
        let seen = self.seen;
        let news = |l: &[Rec]| l[seen..].iter().filter_map(told).collect::<Vec<_>>();
        self.d.sh.wait(LONG, |l| news(l).len() >= want.len());
        let log = self.d.sh.log();
        let got = news(&log);
        self.seen = log.len();
        ensure!(got == want, "told {got:?} instead of {want:?}");
        Ok(())
    }
    /// Takes note of the rings that have timed out; stays clear of the moments when one does.
    fn clear(&mut self) -> Res {
        const MARGIN: Duration = Duration::from_millis(200);
        loop {
            let now = Instant::now();
            let Some(t) = self.timers.first() else { return Ok(()) };
            if now + MARGIN < t.0 {
                return Ok(());
            }
            std::thread::sleep(t.0.saturating_duration_since(now));
            let (_, told, g, ring, from) = self.timers.remove(0);
            self.forget(g, ring, Some(from));
            self.labels.push("a ring timed out");
            self.expect.push(told);
            self.check_only_timers()?;
        }
    }
    fn check_only_timers(&mut self) -> Res {
        // Another may follow at once; the next check would see it.
        let want = std::mem::take(&mut self.expect);
        let seen = self.seen;
        let n = |l: &[Rec]| l.iter().enumerate().skip(seen).filter_map(|(i, r)| told(r).map(|t| (i, t))).take(1).collect::<Vec<_>>();
        ensure!(self.d.sh.wait(LONG, |l| !n(l).is_empty()), "a ring didn't time out: {want:?}");
        let log = self.d.sh.log();
        let got = n(&log);
        ensure!(got[0].1 == want[0], "told {:?} instead of {:?}", got[0].1, want[0]);
        self.seen = got[0].0 + 1;
        Ok(())
    }
    fn apply(&mut self, op: &Op) -> Res {
        match op {
            Op::Say { from, age, msg } => {
                self.say(*from, *age, msg);
                let _ = self.d.cm.received_call_message(
                    user(*from),
                    2,
                    1,
                    msg.message().encode_to_vec(),
                    Duration::from_millis(*age as u64),
                );
            }
            Op::Garbage { from, bytes } => {
                if CallMessage::decode(&bytes[..]).is_ok_and(|m| m != CallMessage::default()) {
                    return Ok(());
                }
                let _ = self.d.cm.received_call_message(user(*from), 2, 1, bytes.clone(), Duration::ZERO);
            }
            Op::Me(u) => {
                self.me = Some(*u);
                let _ = self.d.cm.set_self_uuid(user(*u));
            }
            Op::Cancel { group: g, ring, declined } => {
                self.forget(*g, *ring, None);
                let reason = declined.map(|d| if d { RingCancelReason::DeclinedByUser } else { RingCancelReason::Busy });
                if let Some(d) = declined {
                    self.respond(*g, *ring, if *d { 2 } else { 3 });
                }
                ensure!(self.d.cm.cancel_group_ring(group(*g), (*ring).into(), reason).is_ok(), "can't cancel a ring");
            }
            Op::Call => {
                if self.busy() {
                    return Ok(());
                }
                let at = self.d.sh.len();
                let _ = self.d.cm.call("peer".into(), CallMediaType::Audio, 1);
                let start = |l: &[Rec]| l[at..].iter().find_map(|r| if let Rec::Start { call, .. } = r { Some(*call) } else { None });
                ensure!(self.d.sh.wait(LONG, |l| start(l).is_some()), "a call never started");
                self.call = start(&self.d.sh.log());
                self.labels.push("in another call");
            }
            Op::Hangup => {
                let Some(call) = self.call.take() else { return Ok(()) };
                let _ = self.d.cm.hangup();
                ensure!(self.d.concluded(call), "a call was never concluded");
                self.d.flush()?;
            }
            Op::Create(g) => {
                let r = unsafe {
                    self.d.cm.create_group_call_client(
                        group(*g),
                        "https://sfu.example".into(),
                        vec![],
                        None,
                        0,
                        None,
                        AudioTrack::new(webrtc::Arc::from_owned(webrtc::ptr::OwnedRc::from_ptr(&FAKE_AUDIO_TRACK as *const u32)), None),
                        VideoTrack::new(webrtc::Arc::from_owned(webrtc::ptr::OwnedRc::from_ptr(&FAKE_VIDEO_TRACK as *const u32)), None),
                        None,
                    )
                };
                if self.clients.iter().any(|c| c.group == *g && c.active && !c.deleted) {
                    self.labels.push("a second client for a call");
                    ensure!(r.is_err(), "a second client for the same call was made");
                    return Ok(());
                }
                let Ok(id) = r else { fail!("a client wasn't made") };
                ensure!(id != 0 && self.clients.iter().all(|c| c.id != id), "a client got the number {id}");
                self.rings.retain(|r| r.age < 60);
                let ring = self.rings.iter().find(|r| r.group == *g).map(|r| r.ring);
                self.clients.push(Client {
                    id,
                    group: *g,
                    active: true,
                    connected: false,
                    joining: false,
                    ring,
                    has_key: false,
                    ended: false,
                    deleted: false,
                });
            }
            Op::Connect(k) => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let c = &mut self.clients[k];
                if !c.ended && !c.connected {
                    c.connected = true;
                    self.expect.push(Told::Connection(c.id, ConnectionState::Connecting));
                    self.expect.push(Told::AskMembers(c.id));
                }
                let id = c.id;
                self.d.cm.connect(id);
            }
            Op::Join(k) => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let busy = self.busy();
                let c = &mut self.clients[k];
                let id = c.id;
                if !c.ended && !c.joining {
                    if busy {
                        self.labels.push("joined while busy");
                        self.end(k, CallEndReason::CallManagerIsBusy);
                    } else {
                        c.joining = true;
                        let (g, ring) = (c.group, c.ring.take());
                        self.expect.push(Told::Joining(id, true));
                        if let Some(ring) = ring {
                            self.labels.push("accepted a ring");
                            self.respond(g, ring, 1);
                        }
                    }
                }
                self.d.cm.join(id);
            }
            Op::Leave(k) => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let c = &mut self.clients[k];
                if c.joining {
                    c.joining = false;
                    self.expect.push(Told::Joining(c.id, false));
                }
                let id = c.id;
                self.d.cm.leave(id);
            }
            Op::Disconnect(k) => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                self.clients[k].active = false;
                self.end(k, CallEndReason::DeviceExplicitlyDisconnected);
                let id = self.clients[k].id;
                self.d.cm.disconnect(id);
            }
            Op::Delete(k) => {
                // The app deletes what has ended.
                let Some(k) = self.pick(*k).filter(|k| self.clients[*k].ended) else { return Ok(()) };
                self.clients[k].deleted = true;
                let id = self.clients[k].id;
                self.d.cm.delete_group_call_client(id);
            }
            Op::Age(secs) => {
                for r in &mut self.rings {
                    r.age += *secs as u32;
                }
                self.d.cm.age_all_outstanding_group_rings(Duration::from_secs(*secs as u64));
            }
            Op::Wait(ms) => {
                let end = Instant::now() + Duration::from_millis(*ms as u64);
                while let Some(left) = end.checked_duration_since(Instant::now()) {
                    std::thread::sleep(left.min(Duration::from_millis(50)));
                    self.clear()?;
                }
            }
        }
        self.check()
    }
    /// Ends what is left, so that no threads stay behind.
    fn close(mut self) {
        for c in self.clients.iter().filter(|c| !c.ended) {
            if !c.connected {
                self.d.cm.connect(c.id);
            }
            self.d.cm.disconnect(c.id);
        }
        let left: Vec<_> = self.clients.iter().filter(|c| !c.ended).map(|c| c.id).collect();
        self.d.sh.wait(LONG, |l| {
            left.iter().all(|id| l.iter().any(|r| matches!(r, Rec::GroupEnded { client, .. } if client == id)))
        });
        for c in &self.clients {
            self.d.cm.delete_group_call_client(c.id);
        }
        if let Some(call) = self.call.take() {
            let _ = self.d.cm.hangup();
            self.d.concluded(call);
        }
        self.d.close();
    }
}

fn run(ops: &[Op], o: &mut Obs, timed: bool) -> Res {
    let mut w = World {
        d: Device::new(),
        me: None,
        rings: vec![],
        timers: vec![],
        clients: vec![],
        call: None,
        seen: 0,
        expect: vec![],
        labels: vec![],
    };
    let mut go = || -> Res {
        for (i, op) in ops.iter().enumerate() {
            let at = |mut f: harness::Fail| {
                f.msg = format!("step {i} {op:?}: {}", f.msg);
                f
            };
            if timed {
                w.clear().map_err(at)?;
            } else if w.timers.first().is_some_and(|t| Instant::now() + RINGS / 4 > t.0) {
                w.labels.push("took too long");
                return Ok(());
            }
            let result = w.apply(op);
            if result.is_err() && w.timers.first().is_some_and(|t| Instant::now() > t.0) {
                // Too slow to tell.
                w.labels.push("took too long");
                return Ok(());
            }
            result.map_err(at)?;
        }
        // Whatever comes now is too much.
        std::thread::sleep(Duration::from_millis(5));
        if w.timers.first().is_none_or(|t| Instant::now() + RINGS / 4 < t.0) {
            w.check()?;
        }
        if timed {
            while !w.timers.is_empty() {
                let t = w.timers[0].0;
                std::thread::sleep(t.saturating_duration_since(Instant::now()));
                w.clear()?;
            }
        }
        Ok(())
    };
    let r = go();
    for l in &w.labels {
        o.label(l);
    }
    let rang = w.labels.iter().any(|l| {
        ["accepted a ring", "another device answered a ring", "a ring was cancelled", "a ring while busy", "a ring timed out"].contains(l)
    });
    o.nontrivial_if(rang);
    w.close();
    r
}

fn ring() -> impl Strategy<Value = i64> {
    prop_oneof![8 => Just(7i64), 4 => Just(8), 1 => Just(-1), 1 => any::<i64>()]
}
fn grp() -> impl Strategy<Value = u8> {
    prop_oneof![6 => Just(0u8), 2 => Just(1), 1 => Just(2)]
}
fn message(damage: f64) -> impl Strategy<Value = Msg> {
    let part = move |what: BoxedStrategy<i32>| {
        let keep = 1.0 - damage;
        (prop::option::weighted(keep, grp()), prop::option::weighted(keep, what), prop::option::weighted(keep, ring()))
            .prop_map(|(group, what, ring)| Part { group, what, ring })
    };
    let intention = || part(prop_oneof![6 => Just(0), 4 => Just(1), 1 => 2..9i32].boxed());
    let response = || part(prop_oneof![1 => Just(0), 2 => Just(1), 2 => Just(2), 2 => Just(3), 1 => 4..9i32].boxed());
    let key = || prop::option::weighted(0.9, grp());
    prop_oneof![
        8 => intention().prop_map(|p| Msg { intention: Some(p), ..Default::default() }),
        3 => response().prop_map(|p| Msg { response: Some(p), ..Default::default() }),
        3 => key().prop_map(|k| Msg { key: Some(k), ..Default::default() }),
        // Several at once.
        1 => (prop::option::of(intention()), prop::option::of(response()), prop::option::of(key()))
            .prop_map(|(intention, response, key)| Msg { intention, response, key }),
    ]
}
fn age() -> impl Strategy<Value = u32> {
    prop_oneof![5 => 0..1000u32, 1 => 59_000..=60_000u32, 1 => Just(60_000), 1 => Just(60_001), 1 => 60_001..200_000u32]
}
fn op() -> impl Strategy<Value = Op> {
    let from = || prop_oneof![2 => Just(0u8), 6 => Just(1), 2 => Just(2)];
    prop_oneof![
        20 => (from(), age(), message(0.05)).prop_map(|(from, age, msg)| Op::Say { from, age, msg }),
        1 => (from(), prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(from, bytes)| Op::Garbage { from, bytes }),
        2 => prop_oneof![4 => Just(0u8), 1 => Just(1)].prop_map(Op::Me),
        4 => (grp(), ring(), prop::option::of(any::<bool>())).prop_map(|(group, ring, declined)| Op::Cancel { group, ring, declined }),
        1 => Just(Op::Call),
        3 => Just(Op::Hangup),
        6 => grp().prop_map(Op::Create),
        3 => (0..4u8).prop_map(Op::Connect),
        5 => (0..4u8).prop_map(Op::Join),
        5 => (0..4u8).prop_map(Op::Leave),
        3 => (0..4u8).prop_map(Op::Disconnect),
        2 => (0..4u8).prop_map(Op::Delete),
        2 => prop_oneof![1..9u8, Just(60), 55..59u8].prop_map(Op::Age),
    ]
}
/// What may happen around one ring.
fn story() -> impl Strategy<Value = Vec<Op>> {
    #[derive(Clone, Debug)]
    enum S {
        Ring(bool),
        Cancel(bool),
        Answer(i32),
        Withdraw(Option<bool>),
        Enter,
        Op(Op),
    }
    let s = prop_oneof![
        4 => prop::bool::weighted(0.2).prop_map(S::Ring),
        2 => prop::bool::weighted(0.2).prop_map(S::Cancel),
        2 => (1..4).prop_map(S::Answer),
        1 => prop::option::of(any::<bool>()).prop_map(S::Withdraw),
        4 => Just(S::Enter),
        3 => (0..2u8).prop_map(|k| S::Op(Op::Join(k))),
        3 => (0..2u8).prop_map(|k| S::Op(Op::Leave(k))),
        1 => (0..2u8).prop_map(|k| S::Op(Op::Disconnect(k))),
        1 => prop_oneof![Just(10u8), Just(40), Just(60)].prop_map(|s| S::Op(Op::Age(s))),
    ];
    let s = (s, prop::bool::weighted(0.15));
    (grp(), prop_oneof![Just(7i64), Just(8), Just(-1)], 0..3u8, prop::collection::vec(s, 1..7)).prop_map(|(g, ring, from, story)| {
        let say = |from, what, response, ring| {
            let part = Some(Part { group: Some(g), what: Some(what), ring: Some(ring) });
            let msg = if response { Msg { response: part, ..Default::default() } } else { Msg { intention: part, ..Default::default() } };
            Op::Say { from, age: 10, msg }
        };
        let mut ops = vec![Op::Hangup, Op::Leave(0), Op::Leave(1), say(from, 0, false, ring)];
        ops.extend(story.into_iter().map(|(s, another)| {
            // There may be another ring for the group.
            let ring = if another { 15 - ring } else { ring };
            match s {
                S::Ring(other) => say(if other { from ^ 1 } else { from }, 0, false, ring),
                S::Cancel(other) => say(if other { from ^ 1 } else { from }, 1, false, ring),
                S::Answer(what) => say(0, what, true, ring),
                S::Withdraw(declined) => Op::Cancel { group: g, ring, declined },
                S::Enter => Op::Create(g),
                S::Op(o) => o,
            }
        }));
        ops
    })
}
fn ops() -> impl Strategy<Value = Vec<Op>> {
    let some = prop_oneof![3 => op().prop_map(|o| vec![o]), 3 => story()];
    (prop::bool::weighted(0.9), prop::collection::vec(some, 2..12).prop_map(|v| v.concat())).prop_map(|(known, mut ops)| {
        if known {
            ops.insert(0, Op::Me(0));
        }
        ops
    })
}
fn slow_ops() -> impl Strategy<Value = Vec<Op>> {
    let round = |o: Op| match o {
        Op::Age(_) => Op::Age(10),
        o => o,
    };
    let op = prop_oneof![
        2 => op().prop_map(move |o| vec![round(o)]),
        3 => story().prop_map(move |v| v.into_iter().map(round).collect()),
        2 => (0..900u16).prop_map(|ms| vec![Op::Wait(ms)]),
        // Two ring for the same call, one after the other; the first one's
        // time runs out.
        2 => (400..700u16, 50..250u16, 0..3u8, 0..2u8).prop_map(|(apart, late, from, g)| {
            let part = Some(Part { group: Some(g), what: Some(0), ring: Some(7) });
            let say = |from| Op::Say { from, age: 10, msg: Msg { intention: part.clone(), ..Default::default() } };
            let mut ops = vec![Op::Hangup, Op::Leave(0), Op::Leave(1), say(from), Op::Wait(apart), say((from + 1) % 3), Op::Wait(RINGS.as_millis() as u16 - apart + late)];
            ops.extend([Op::Create(g), Op::Connect(0), Op::Connect(1), Op::Join(0), Op::Join(1)]);
            ops
        }),
    ];
    prop::collection::vec(op, 3..12).prop_map(|ops| {
        let mut ops = ops.concat();
        ops.insert(0, Op::Me(0));
        let mut left = 2000;
        for o in &mut ops {
            if let Op::Wait(ms) = o {
                *ms = (*ms).min(left);
                left -= *ms;
            }
        }
        ops
    })
}

fn ring_of_era(era: &str) -> i64 {
    let n = if era.len() == 16 && era.bytes().all(|b| b.is_ascii_hexdigit()) {
        era.bytes().fold(0u64, |n, b| n << 4 | (b as char).to_digit(16).unwrap() as u64) as i64
    } else {
        return i64::from_le_bytes(Sha256::digest(era.as_bytes())[..8].try_into().unwrap());
    };
    if n == 0 { -1 } else { n }
}

pub fn c26(r: &mut Runner) {
    r.facet("what becomes of rings", "a ring was accepted, answered elsewhere, cancelled or refused", par(4000), ops, |ops, o: &mut Obs| {
        run(ops, o, false)
    });
    r.facet("rings that time out", "a ring was accepted, answered, cancelled, refused or timed out", waiting(300), slow_ops, |ops, o: &mut Obs| {
        run(ops, o, true)
    });
    let validate = || (message(0.1), age(), any::<bool>());
    r.facet("rings while the app sleeps", "a ring", par(20_000), validate, |(msg, age, accept), o: &mut Obs| {
        let mut asked = vec![];
        let got = validate_call_message_as_opaque_ring(&msg.message(), Duration::from_millis(*age as u64), |g, r| {
            asked.push((g.to_vec(), i64::from(r)));
            *accept
        });
        let ring = msg.intention.as_ref().and_then(Part::all).filter(|p| p.1 == 0);
        use OpaqueRingValidationError as E;
        let want = match ring {
            None => Err("no ring"),
            Some(_) if *age > OLD => Err("expired"),
            Some(_) if !accept => Err("rejected"),
            Some(_) => Ok(()),
        };
        let got = got.map_err(|e| match e {
            E::NotARing => "no ring",
            E::Expired => "expired",
            E::RejectedByCallback => "rejected",
        });
        ensure_eq!(got, want);
        let want: Vec<_> = ring.filter(|_| *age <= OLD).map(|p| (group(p.0), p.2)).into_iter().collect();
        ensure_eq!(asked, want);
        o.nontrivial_if(ring.is_some());
        Ok(())
    });
    let era = || prop_oneof!["[0-9a-f]{16}", "[0-9A-F]{16}", "0{16}", "[0-9a-f]{0,20}", "[0-9a-g]{16}", ".{0,20}"];
    r.facet("ring of an era", "an era of hexadecimal digits", par(20_000), era, |era: &String, o: &mut Obs| {
        // A sign is no digit, but has always been taken for one.
        if era.starts_with('+') {
            return Ok(());
        }
        let ring = i64::from(RingId::from_era_id(era));
        ensure_eq!(ring, ring_of_era(era));
        ensure!(ring != 0, "{era:?} has the ring 0");
        o.nontrivial_if(era.len() == 16);
        Ok(())
    });
}
