//! Several real devices joined by a generated network.
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    time::{Duration, Instant},
};

use harness::{Obs, Res, Runner, ensure, fail, par};
use proptest::prelude::*;
use ringrtc::{
    common::{CallConfig, CallDirection as Dir, CallEndReason as End, CallId, CallMediaType, CallState},
    core::{connection::ConnectionType, signaling},
    protobuf::rtp_data as pb,
    webrtc::{self, media::MediaStream, rtp},
};
use serde::{Deserialize, Serialize};

use crate::plat::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// A device calls another user.
    Call(u8, u8, u32),
    Proceed(u8),
    Accept(u8),
    Hangup(u8),
    /// Signaling, from one of the nonempty queues.
    Deliver(u8, u8),
    /// Calls are handed over and everything that has been sent arrives.
    Ready,
    /// One end of one of the possible links finds that it works.
    Link(u8),
    /// One of the links breaks.
    Break(u8),
    /// The application couldn't send the message.
    Lose(u8),
    Pause(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scene {
    /// How many devices each user has.
    users: Vec<u8>,
    ops: Vec<Op>,
}

#[derive(Clone, Debug)]
enum What {
    Offer(CallMediaType, Vec<u8>),
    Answer(Vec<u8>),
    Ice(Vec<Vec<u8>>),
    Hangup(signaling::Hangup),
    Busy,
}

struct Dev {
    d: Device,
    user: usize,
    no: u32,
    read: usize,
    read_rtp: usize,
    lose: bool,
    proceeded: BTreeSet<u64>,
    /// How often the remote media was reported per call and device.
    media: BTreeMap<(u64, u32), u32>,
}

struct World {
    devs: Vec<Dev>,
    net: BTreeMap<(usize, usize), VecDeque<(u64, What)>>,
    /// Ends of links that are up: call, device, the device at the other end.
    up: BTreeSet<(u64, usize, usize)>,
    broken: BTreeSet<(u64, usize, usize)>,
    lost: BTreeSet<(usize, u64)>,
    hung: BTreeSet<(usize, u64)>,
    accepted: BTreeSet<(usize, u64)>,
    late: BTreeSet<(usize, u64)>,
    ids: BTreeSet<u64>,
    seen: BTreeSet<&'static str>,
}

fn name(user: usize) -> String {
    format!("user{user}")
}
fn key(user: usize) -> Vec<u8> {
    vec![user as u8 + 10; 33]
}

impl World {
    fn new(users: &[u8]) -> World {
        let mut devs = vec![];
        for (user, n) in users.iter().enumerate() {
            for no in 1..=*n {
                devs.push(Dev { d: Device::new(), user, no: no as u32, read: 0, read_rtp: 0, lose: false, proceeded: BTreeSet::new(), media: BTreeMap::new() });
            }
        }
        World {
            devs,
            net: BTreeMap::new(),
            up: BTreeSet::new(),
            broken: BTreeSet::new(),
            lost: BTreeSet::new(),
            hung: BTreeSet::new(),
            accepted: BTreeSet::new(),
            late: BTreeSet::new(),
            ids: BTreeSet::new(),
            seen: BTreeSet::new(),
        }
    }
    fn of(&self, peer: &str, no: Option<u32>) -> Vec<usize> {
        (0..self.devs.len())
            .filter(|i| name(self.devs[*i].user) == peer && no.is_none_or(|n| self.devs[*i].no == n))
            .collect()
    }
    fn find(&self, peer: &str, no: u32) -> Option<usize> {
        self.of(peer, Some(no)).first().copied()
    }

    /// Takes what the devices have sent since.
    fn pump(&mut self) {
        for i in 0..self.devs.len() {
            let (new, rtp) = {
                let x = &mut self.devs[i];
                let l = x.d.sh.lock();
                let new = l.log[x.read..].to_vec();
                let rtp = l.rtp[x.read_rtp..].to_vec();
                x.read = l.log.len();
                x.read_rtp = l.rtp.len();
                (new, rtp)
            };
            for r in new {
                let (peer, call, to, what) = match r {
                    Rec::SendOffer { peer, call, media, offer } => (peer, call, None, What::Offer(media, offer)),
                    Rec::SendAnswer { peer, call, device, answer } => (peer, call, Some(device), What::Answer(answer)),
                    Rec::SendIce { peer, call, device, ice } => (peer, call, device, What::Ice(ice)),
                    Rec::SendHangup { peer, call, hangup } => (peer, call, None, What::Hangup(hangup)),
                    Rec::SendBusy { peer, call } => (peer, call, None, What::Busy),
                    _ => continue,
                };
                let end = matches!(what, What::Hangup(_) | What::Busy);
                if std::mem::take(&mut self.devs[i].lose) && !end {
                    self.lost.insert((i, call));
                    self.seen.insert("message not sent");
                    let _ = self.devs[i].d.cm.message_send_failure(CallId::new(call));
                    continue;
                }
                for j in self.of(&peer, to) {
                    if j != i {
                        self.net.entry((i, j)).or_default().push_back((call, what.clone()));
                    }
                }
                let _ = self.devs[i].d.cm.message_sent(CallId::new(call));
            }
            for (call, no, _, m) in rtp {
                let Some(c) = self.devs[i].d.cm.active_call().ok().filter(|c| c.call_id().as_u64() == call) else {
                    // Its call is over; so is its link.
                    continue;
                };
                let Ok(peer) = c.remote_peer().map(|p| p.clone()) else { continue };
                drop(c);
                if let Some(j) = self.find(&peer, no)
                    && self.up.contains(&(call, i, j))
                {
                    self.rtp(i, j, call, &m);
                }
            }
        }
    }
    fn rtp(&self, i: usize, j: usize, call: u64, m: &pb::Message) {
        let x = &self.devs[j].d;
        if x.active_id() == Some(call)
            && let Some(mut k) = x.conn(self.devs[i].no)
        {
            k.inject_received_via_rtp_data(&crate::call_props::rtp_message(|o| *o = m.clone()));
        }
    }
    fn deliver(&mut self, i: usize, j: usize) {
        let Some((call, what)) = self.net.get_mut(&(i, j)).and_then(|q| q.pop_front()) else { return };
        let (peer, from) = (name(self.devs[i].user), self.devs[i].no);
        let (a, b) = (key(self.devs[i].user), key(self.devs[j].user));
        let no = self.devs[j].no;
        let cm = &mut self.devs[j].d.cm;
        let call = CallId::new(call);
        let _ = match what {
            What::Offer(media, o) => {
                let offer = signaling::Offer::new(media, o).unwrap();
                cm.received_offer(
                    peer,
                    call,
                    signaling::ReceivedOffer {
                        offer,
                        age: Duration::from_secs(1),
                        sender_device_id: from,
                        receiver_device_id: no,
                        sender_identity_key: a,
                        receiver_identity_key: b,
                    },
                )
            }
            What::Answer(x) => cm.received_answer(
                peer,
                call,
                signaling::ReceivedAnswer {
                    answer: signaling::Answer::new(x).unwrap(),
                    sender_device_id: from,
                    sender_identity_key: a,
                    receiver_identity_key: b,
                },
            ),
            What::Ice(l) => cm.received_ice(
                peer,
                call,
                signaling::ReceivedIce {
                    ice: signaling::Ice { candidates: l.into_iter().map(signaling::IceCandidate::new).collect() },
                    sender_device_id: from,
                },
            ),
            What::Hangup(hangup) => {
                cm.received_hangup(peer, call, signaling::ReceivedHangup { hangup, sender_device_id: from })
            }
            What::Busy => cm.received_busy(peer, call, signaling::ReceivedBusy { sender_device_id: from }),
        };
    }
    fn flush(&mut self) -> Res {
        for x in &mut self.devs {
            x.d.flush()?;
        }
        self.pump();
        Ok(())
    }
    /// The remote media of new connections.
    fn media(&mut self) {
        for x in &mut self.devs {
            let Some(id) = x.d.active_id() else { continue };
            let mut n: BTreeMap<u32, u32> = BTreeMap::new();
            for r in &x.d.sh.lock().log {
                if let Rec::Create { call, device, kind } = r
                    && *call == id
                    && *kind != ConnectionType::OutgoingParent
                {
                    *n.entry(*device).or_default() += 1;
                }
            }
            for (dev, n) in n {
                let done = x.media.entry((id, dev)).or_default();
                if n > *done
                    && let Some(mut k) = x.d.conn(dev)
                {
                    *done = n;
                    let _ = k.inject_received_incoming_media(MediaStream::new(webrtc::Arc::null()));
                }
            }
        }
    }
    /// Both ends of the connections that both sides have: call, device, peer device.
    fn links(&self) -> Vec<(u64, usize, usize)> {
        let mut v = vec![];
        for i in 0..self.devs.len() {
            for j in 0..self.devs.len() {
                let (a, b) = (&self.devs[i], &self.devs[j]);
                let Some(id) = a.d.active_id() else { continue };
                if i == j || a.user == b.user || b.d.active_id() != Some(id) {
                    continue;
                }
                if a.d.conn(b.no).is_some() && b.d.conn(a.no).is_some() {
                    v.push((id, i, j));
                }
            }
        }
        v
    }
    fn link(&mut self, l: (u64, usize, usize)) {
        let (id, i, j) = l;
        if self.broken.contains(&l) || !self.up.insert(l) {
            return;
        }
        if self.devs[i].d.active_id() == Some(id)
            && let Some(mut k) = self.devs[i].d.conn(self.devs[j].no)
        {
            let _ = k.inject_ice_connected();
        }
    }
    fn fail_link(&mut self, (id, i, j): (u64, usize, usize)) {
        for (i, j) in [(i, j), (j, i)] {
            self.broken.insert((id, i, j));
            self.up.remove(&(id, i, j));
            if self.devs[i].d.active_id() == Some(id)
                && let Some(mut k) = self.devs[i].d.conn(self.devs[j].no)
            {
                let _ = k.inject_ice_failed();
            }
        }
    }
    fn proceed(&mut self, i: usize) {
        let Ok(c) = self.devs[i].d.cm.active_call() else { return };
        if c.state().ok() == Some(CallState::WaitingToProceed) {
            let id = c.call_id();
            drop(c);
            if !self.devs[i].proceeded.insert(id.as_u64()) {
                return;
            }
            let _ = self.devs[i].d.cm.proceed(id, "ctx".into(), CallConfig::default(), None);
        }
    }
    fn step(&mut self, op: &Op) -> Res {
        let n = self.devs.len();
        match *op {
            Op::Call(i, u, id) => {
                let i = i as usize % n;
                let users = self.devs.last().unwrap().user + 1;
                let u = u as usize % users;
                let id = id as u64 + 1;
                if u == self.devs[i].user || !self.ids.insert(id) {
                    return Ok(());
                }
                let no = self.devs[i].no;
                let _ = self.devs[i].d.cm.create_outgoing_call(name(u), CallId::new(id), CallMediaType::Audio, no);
            }
            Op::Proceed(i) => self.proceed(i as usize % n),
            Op::Accept(i) => {
                let ringing: Vec<(usize, CallId)> = self
                    .devs
                    .iter()
                    .enumerate()
                    .filter_map(|(j, x)| {
                        let c = x.d.cm.active_call().ok()?;
                        (c.direction() == Dir::Incoming && c.state().ok()? != CallState::WaitingToProceed)
                            .then(|| (j, c.call_id()))
                    })
                    .collect();
                let ringing: Vec<_> =
                    ringing.into_iter().filter(|(j, c)| !self.accepted.contains(&(*j, c.as_u64()))).collect();
                if !ringing.is_empty() {
                    let (j, id) = ringing[i as usize % ringing.len()];
                    self.accepted.insert((j, id.as_u64()));
                    let _ = self.devs[j].d.cm.accept_call(id);
                }
            }
            Op::Hangup(i) => {
                let i = i as usize % n;
                if let Some(id) = self.devs[i].d.active_id() {
                    self.hung.insert((i, id));
                    let _ = self.devs[i].d.cm.hangup();
                }
            }
            Op::Deliver(k, times) => {
                for _ in 0..times {
                    let full: Vec<_> = self.net.iter().filter(|q| !q.1.is_empty()).map(|q| *q.0).collect();
                    if full.is_empty() {
                        break;
                    }
                    let (i, j) = full[k as usize % full.len()];
                    self.deliver(i, j);
                }
            }
            Op::Ready => {
                for i in 0..n {
                    self.proceed(i);
                }
                self.flush()?;
                let full: Vec<_> = self.net.iter().filter(|q| !q.1.is_empty()).map(|q| *q.0).collect();
                for (i, j) in full {
                    while self.net.get(&(i, j)).is_some_and(|q| !q.is_empty()) {
                        self.deliver(i, j);
                    }
                }
            }
            Op::Link(k) => {
                let l = self.links();
                let l: Vec<_> = l.into_iter().filter(|l| !self.up.contains(l)).collect();
                if !l.is_empty() {
                    self.link(l[k as usize % l.len()]);
                }
            }
            Op::Break(k) => {
                let l = self.links();
                if !l.is_empty() {
                    self.seen.insert("link broken");
                    self.fail_link(l[k as usize % l.len()]);
                }
            }
            Op::Lose(i) => self.devs[i as usize % n].lose = true,
            Op::Pause(ms) => std::thread::sleep(Duration::from_millis(ms as u64 % 4)),
        }
        self.flush()?;
        self.media();
        Ok(())
    }

    /// What leaves devices ringing for nobody.
    fn faults(&self) -> bool {
        // The winner of a glare could have given up before its offer was sent.
        let glare = |x: &Dev| {
            x.d.sh.lock().log.iter().any(|r| {
                matches!(r, Rec::Event { ev: ringrtc::common::ApplicationEvent::ReceivedOfferWithGlare, .. })
            })
        };
        !self.lost.is_empty() || !self.broken.is_empty() || self.devs.iter().any(glare)
    }
    fn time_out(&mut self) {
        let ids: Vec<Option<u64>> = self.devs.iter().map(|x| x.d.active_id()).collect();
        for (i, id) in ids.iter().enumerate() {
            if id.is_some()
                && !ids.iter().enumerate().any(|(j, o)| j != i && o == id)
                && let Ok(mut c) = self.devs[i].d.cm.active_call()
            {
                self.seen.insert("timed out");
                self.late.insert((i, id.unwrap()));
                let _ = c.inject_call_timeout();
            }
        }
    }

    /// What is wrong with what the devices believe.
    fn disagreement(&self) -> Option<String> {
        let st: Vec<Option<(u64, Dir, CallState, Option<u32>, String)>> = self
            .devs
            .iter()
            .map(|x| {
                let c = x.d.cm.active_call().ok()?;
                let peer = c.remote_peer().ok()?.clone();
                Some((c.call_id().as_u64(), c.direction(), c.state().ok()?, c.active_device_id().ok(), peer))
            })
            .collect();
        let talking = |s: CallState| {
            matches!(
                s,
                CallState::ConnectingAfterAccepted
                    | CallState::ConnectedAndAccepted
                    | CallState::ReconnectingAfterAccepted
            )
        };
        for (i, s) in st.iter().enumerate() {
            let Some((id, dir, state, active, peer)) = s else { continue };
            let who = format!("{} device {} ({dir:?} call {id} with {peer}, {state:?})", name(self.devs[i].user), self.devs[i].no);
            let same: Vec<usize> = (0..st.len())
                .filter(|j| *j != i && st[*j].as_ref().is_some_and(|t| t.0 == *id && t.1 != *dir))
                .collect();
            if *state == CallState::Terminating || *state == CallState::WaitingToProceed {
                return Some(format!("{who} isn't settled"));
            }
            if same.is_empty() {
                return Some(format!("{who} is alone in the call"));
            }
            if talking(*state) {
                let Some(active) = active else { return Some(format!("{who} has no active device")) };
                let Some(j) = self.find(peer, *active) else { return Some(format!("{who} talks to nobody")) };
                if same != [j] {
                    return Some(format!("{who} is talking to device {active}, but {same:?} are in the call"));
                }
                let t = st[j].as_ref().unwrap();
                if !talking(t.2) {
                    return Some(format!("{who} is talking to device {active}, which is {:?}", t.2));
                }
                if t.3 != Some(self.devs[i].no) {
                    return Some(format!("{who} is talking to device {active}, which talks to {:?}", t.3));
                }
            } else if same.iter().any(|j| talking(st[*j].as_ref().unwrap().2)) {
                return Some(format!("{who} isn't accepted, the other side is"));
            }
        }
        None
    }
    /// Lets everything run its course until all agree.
    fn settle(&mut self, mut ok: impl FnMut(&mut World) -> Option<String>) -> Res {
        let end = Instant::now() + Duration::from_secs(8);
        let mut rounds = 0;
        let mut timed_out = false;
        loop {
            let mut moved = false;
            for i in 0..self.devs.len() {
                self.proceed(i);
            }
            self.flush()?;
            self.media();
            let pairs: Vec<_> = self.net.keys().copied().collect();
            for (i, j) in pairs {
                while self.net.get(&(i, j)).is_some_and(|q| !q.is_empty()) {
                    self.deliver(i, j);
                    moved = true;
                }
            }
            self.flush()?;
            self.media();
            for l in self.links() {
                if self.broken.contains(&l) {
                    self.fail_link(l);
                } else if !self.up.contains(&l) {
                    moved = true;
                    self.link(l);
                }
            }
            if rounds % 8 == 7 {
                for (_, i, j) in self.links() {
                    if let Some(mut k) = self.devs[i].d.conn(self.devs[j].no) {
                        let _ = k.tick(5);
                    }
                }
            }
            self.flush()?;
            rounds += 1;
            if !moved {
                match ok(self) {
                    None => return Ok(()),
                    Some(why) if Instant::now() > end => {
                        let logs: Vec<String> = self.devs.iter().map(|x| show(&x.d.log())).collect();
                        fail!("with every message delivered {why}: {}", logs.join(" || "))
                    }
                    // Who rings for nobody because of a fault waits for the timeout.
                    Some(_) if !timed_out && self.faults() && Instant::now() > end - Duration::from_secs(5) => {
                        timed_out = true;
                        self.time_out();
                    }
                    _ => std::thread::sleep(Duration::from_millis(2)),
                }
            }
        }
    }
    /// Every end of a call has its cause.
    fn reason(&self, i: usize, call: u64, reason: End) -> Res {
        let user = self.devs[i].user;
        let others = |set: &BTreeSet<(usize, u64)>| {
            set.iter().any(|(j, c)| *c == call && *j != i && self.devs[*j].user == user)
        };
        let log = |f: &dyn Fn(usize, &Rec) -> bool| {
            self.devs.iter().enumerate().any(|(j, x)| j != i && x.d.sh.lock().log.iter().any(|r| f(j, r)))
        };
        let ok = match reason {
            End::LocalHangup => self.hung.contains(&(i, call)),
            End::RemoteHangupAccepted => others(&self.accepted),
            // Whoever leaves a call before it is accepted, declines it.
            End::RemoteHangupDeclined => log(&|j, r| {
                matches!(r, Rec::SendHangup { call: c, .. } if *c == call) && self.devs[j].user == user
            }),
            End::RemoteHangupBusy | End::RemoteBusy => {
                let mate = reason == End::RemoteHangupBusy;
                log(&|j, r| {
                    matches!(r, Rec::SendBusy { call: c, .. } if *c == call) && (self.devs[j].user == user) == mate
                })
            }
            End::RemoteHangup => {
                log(&|_, r| matches!(r, Rec::SendHangup { call: c, hangup: signaling::Hangup::Normal, .. } if *c == call))
                    || log(&|_, r| matches!(r, Rec::Ended { call: c, .. } if *c == call))
            }
            End::ConnectionFailure => self.broken.iter().any(|l| l.0 == call && l.1 == i),
            End::SignalingFailure => self.lost.contains(&(i, call)),
            End::Timeout => self.late.contains(&(i, call)),
            _ => true,
        };
        ensure!(
            ok,
            "call {call} ended for user{user} device {} as {reason:?} for no reason: {}",
            self.devs[i].no,
            self.devs.iter().map(|x| show(&x.d.log())).collect::<Vec<_>>().join(" || ")
        );
        Ok(())
    }
    fn keys(&mut self) -> Res {
        let mut all: BTreeMap<Vec<u8>, (u64, usize, usize)> = BTreeMap::new();
        for (id, i, j) in self.links() {
            let (Some(a), Some(b)) =
                (self.devs[i].d.pc(id, self.devs[j].no), self.devs[j].d.pc(id, self.devs[i].no))
            else {
                continue;
            };
            let ([Some(al), Some(ar)], [Some(bl), Some(br)]) = (a.srtp_keys(), b.srtp_keys()) else {
                fail!("call {id}: no media keys were set between {i} and {j}")
            };
            ensure!(al == br && ar == bl, "call {id}: {i} and {j} use different media keys");
            ensure!(al.0.len() == 32 && al.1.len() == 12, "call {id}: media key of {} bytes", al.0.len());
            self.seen.insert("keys agreed");
            if let Some(other) = all.insert(al.0.clone(), (id, i, j)) {
                fail!("{:?} and {other:?} send with the same media key", (id, i, j));
            }
        }
        Ok(())
    }
}

fn run(s: &Scene, o: &mut Obs) -> Res {
    let mut w = World::new(&s.users);
    for op in &s.ops {
        w.step(op)?;
    }
    w.settle(|w| w.disagreement())?;
    w.keys()?;
    for x in &w.devs {
        if let Ok(c) = x.d.cm.active_call() {
            w.seen.insert(match c.state() {
                Ok(CallState::ConnectedAndAccepted) => "talking in the end",
                _ => "ringing in the end",
            });
        }
    }
    // Who loses out to another device, must be told so.
    let mut starts: BTreeMap<u64, BTreeSet<usize>> = BTreeMap::new();
    for (i, x) in w.devs.iter().enumerate() {
        for r in x.d.log() {
            match r {
                Rec::Start { call, .. } => {
                    starts.entry(call).or_default().insert(i);
                }
                Rec::Ended { call, reason, .. } => {
                    w.reason(i, call, reason)?;
                    w.seen.insert(match reason {
                        End::RemoteGlare => "glare",
                        End::RemoteReCall => "recall",
                        End::RemoteBusy => "busy",
                        End::RemoteHangupAccepted => "accepted elsewhere",
                        End::RemoteHangupDeclined => "declined elsewhere",
                        End::RemoteHangupBusy => "busy elsewhere",
                        End::RemoteHangup => "remote hangup",
                        End::ConnectionFailure => "connection failed",
                        End::SignalingFailure => "signaling failed",
                        End::LocalHangup => "hung up",
                        End::InternalFailure => "refused",
                        _ => "other end",
                    });
                }
                _ => {}
            }
        }
    }
    for (call, devs) in &starts {
        let accepted: Vec<usize> = devs
            .iter()
            .copied()
            .filter(|i| {
                w.devs[*i].d.log().iter().any(|r| {
                    matches!(r, Rec::Event { call: c, ev: ringrtc::common::ApplicationEvent::RemoteAccepted, .. } if c == call)
                })
            })
            .collect();
        ensure!(accepted.len() <= 1, "call {call} has several callers: {accepted:?}");
    }
    // One device of each call hangs up, which must end the call for all.
    let mut hung = BTreeSet::new();
    w.settle(|w| {
        for x in &mut w.devs {
            if let Some(id) = x.d.active_id()
                && hung.insert(id)
            {
                let _ = x.d.cm.hangup();
            }
        }
        w.devs
            .iter()
            .find_map(|x| x.d.active_id().map(|id| format!("{} device {} is still in call {id}", name(x.user), x.no)))
    })?;
    for s in &w.seen {
        o.label(s);
    }
    o.nontrivial_if(starts.values().filter(|d| d.len() > 1).count() > 0);
    for x in &mut w.devs {
        let _ = x.d.cm.reset();
        x.d.flush()?;
    }
    for (call, devs) in &starts {
        for i in devs {
            w.devs[*i].d.concluded(*call);
        }
    }
    for x in w.devs {
        x.d.close();
    }
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let d = || 0u8..6;
    prop_oneof![
        3 => (d(), 0u8..3, any::<u32>()).prop_map(|(i, u, id)| Op::Call(i, u, id)),
        4 => d().prop_map(Op::Proceed),
        4 => d().prop_map(Op::Accept),
        1 => d().prop_map(Op::Hangup),
        10 => (any::<u8>(), 1u8..4).prop_map(|(k, n)| Op::Deliver(k, n)),
        2 => Just(Op::Ready),
        6 => any::<u8>().prop_map(Op::Link),
        1 => any::<u8>().prop_map(Op::Break),
        1 => d().prop_map(Op::Lose),
        2 => any::<u8>().prop_map(Op::Pause),
    ]
}
fn scene() -> impl Strategy<Value = Scene> {
    let users = prop_oneof![
        3 => (1u8..3, 1u8..4).prop_map(|(a, b)| vec![a, b]),
        2 => (1u8..3, 1u8..3, Just(1u8)).prop_map(|(a, b, c)| vec![a, b, c]),
    ];
    // Two users calling each other about now, or one calling, then anything.
    let start = prop_oneof![
        2 => (any::<u32>(), any::<u32>()).prop_map(|(x, y)| vec![Op::Call(0, 1, x), Op::Call(5, 0, y), Op::Proceed(0), Op::Proceed(5)]),
        3 => any::<u32>().prop_map(|x| vec![Op::Call(0, 1, x), Op::Proceed(0), Op::Deliver(0, 1), Op::Deliver(1, 1), Op::Deliver(2, 1)]),
        3 => (any::<u32>(), 0usize..5, prop::collection::vec((any::<u8>(), any::<bool>()), 0..8)).prop_map(|(x, accept, links)| {
            let mut v = vec![Op::Call(0, 1, x), Op::Ready, Op::Ready, Op::Ready];
            for (i, (k, ready)) in links.into_iter().enumerate() {
                if i == accept {
                    v.push(Op::Accept(k >> 4));
                }
                v.push(Op::Link(k));
                if ready {
                    v.push(Op::Ready);
                }
            }
            v
        }),
        1 => Just(vec![]),
    ];
    (users, start, prop::collection::vec(op(), 0..30)).prop_map(|(users, mut ops, more)| {
        // "The last device" is a callee's.
        let n: u8 = users.iter().sum();
        for o in &mut ops {
            if let Op::Call(i, ..) | Op::Proceed(i) = o
                && *i == 5
            {
                *i = n - 1;
            }
        }
        ops.extend(more);
        Scene { users, ops }
    })
}

pub fn c20(r: &mut Runner) {
    r.facet(
        "devices joined by a network",
        "a call reached another device",
        par(1500),
        scene,
        |s: &Scene, o: &mut Obs| run(s, o),
    );
}

#[allow(unused)]
fn _unused(_: rtp::Header) {}
