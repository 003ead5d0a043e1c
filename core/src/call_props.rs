//! C15 the life cycle of 1:1 calls.
use std::{
    collections::{BTreeMap, BTreeSet},
    time::Duration,
};

use harness::{Fail, Obs, Res, Runner, ensure, par, seq};
use proptest::prelude::*;
use prost::Message as _;
use ringrtc::{
    common::{CallConfig, CallId, CallMediaType, DataMode},
    core::signaling,
    protobuf,
    webrtc::{
        self,
        media::MediaStream,
        peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol},
        rtp,
    },
};
use serde::{Deserialize, Serialize};

use crate::model;
use crate::plat::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Which {
    Active,
    Recent(u8),
    Unknown,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum NewId {
    Above,
    Below,
    Same,
    Recent(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum ConnOp {
    IceUp,
    IceFail,
    IceDown,
    Media,
    Route(bool),
    LocalIce(u8),
    Accepted(bool),
    Hangup(bool, u8),
    Status(bool, u8),
    Rate(bool, u32),
    Tick,
    SendStatus(bool),
    Mode(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Call { peer: u8 },
    Proceed(Which),
    Accept(Which),
    Drop(Which),
    Hangup,
    Offer { id: NewId, peer: u8, from: u8, old: bool },
    Answer { to: Which, peer: u8, from: u8 },
    Ice { to: Which, peer: u8, from: u8, n: u8 },
    RemoteHangup { to: Which, peer: u8, from: u8, kind: u8, dev: u8 },
    Busy { to: Which, peer: u8, from: u8 },
    Sent,
    NotSent(Which),
    Conn(u8, ConnOp),
    Timeout,
    Reset,
    Break(u8, u8),
    Pause(u8),
}

pub fn hangup(kind: u8, dev: u8) -> signaling::Hangup {
    let dev = dev as u32;
    match kind % 5 {
        0 => signaling::Hangup::Normal,
        1 => signaling::Hangup::AcceptedOnAnotherDevice(dev),
        2 => signaling::Hangup::DeclinedOnAnotherDevice(dev),
        3 => signaling::Hangup::BusyOnAnotherDevice(dev),
        _ => signaling::Hangup::NeedPermission(if dev == 0 { None } else { Some(dev) }),
    }
}

pub fn route(relayed: bool) -> NetworkRoute {
    NetworkRoute {
        local_adapter_type: NetworkAdapterType::Wifi,
        local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
        local_relayed: relayed,
        local_relay_protocol: TransportProtocol::Unknown,
        remote_relayed: false,
    }
}

pub fn header(ts: u32) -> rtp::Header {
    rtp::Header { pt: 101, seqnum: ts as u16, timestamp: ts, ssrc: 0xD }
}

/// The RTP data message the peer would send.
pub fn rtp_message(f: impl FnOnce(&mut protobuf::rtp_data::Message)) -> Vec<u8> {
    let mut m = protobuf::rtp_data::Message::default();
    f(&mut m);
    m.encode_to_vec()
}

pub fn do_conn(c: &mut Conn, op: ConnOp, call: u64, seq: u64) {
    let cid = |right: bool| if right { call } else { call ^ 1 };
    let _ = match op {
        ConnOp::IceUp => c.inject_ice_connected(),
        ConnOp::IceFail => c.inject_ice_failed(),
        ConnOp::IceDown => c.inject_ice_disconnected(),
        ConnOp::Media => c.inject_received_incoming_media(MediaStream::new(webrtc::Arc::null())),
        ConnOp::Route(r) => c.inject_ice_network_route_changed(route(r)),
        ConnOp::LocalIce(n) => c.inject_local_ice_candidate(ice(n as u32), n % 2 == 0, "", None),
        ConnOp::Accepted(right) => {
            c.inject_received_via_rtp_data(&rtp_message(|m| {
                m.accepted = Some(protobuf::rtp_data::Accepted { id: Some(cid(right)) })
            }));
            Ok(())
        }
        ConnOp::Hangup(right, kind) => {
            let (t, d) = hangup(kind, 2).to_type_and_device_id();
            c.inject_received_via_rtp_data(&rtp_message(|m| {
                m.hangup = Some(protobuf::rtp_data::Hangup {
                    id: Some(cid(right)),
                    r#type: Some(t as i32),
                    device_id: d,
                })
            }));
            Ok(())
        }
        ConnOp::Status(right, bits) => {
            c.inject_received_via_rtp_data(&rtp_message(|m| {
                m.seqnum = Some(seq);
                m.sender_status = Some(protobuf::rtp_data::SenderStatus {
                    id: Some(cid(right)),
                    video_enabled: Some(bits & 1 != 0),
                    sharing_screen: Some(bits & 2 != 0),
                    audio_enabled: Some(bits & 4 != 0),
                });
            }));
            Ok(())
        }
        ConnOp::Rate(right, bps) => {
            c.inject_received_via_rtp_data(&rtp_message(|m| {
                m.seqnum = Some(seq);
                m.receiver_status = Some(protobuf::rtp_data::ReceiverStatus {
                    id: Some(cid(right)),
                    max_bitrate_bps: Some(bps as u64),
                });
            }));
            Ok(())
        }
        ConnOp::Tick => c.tick(seq * 5),
        ConnOp::SendStatus(v) => c.update_sender_status(signaling::SenderStatus {
            video_enabled: Some(v),
            ..Default::default()
        }),
        ConnOp::Mode(m) => c.inject_update_data_mode(if m % 2 == 0 { DataMode::Low } else { DataMode::Normal }),
    };
}

struct Ids {
    made: Vec<u64>,
    next: u64,
}
impl Ids {
    fn which(&self, w: Which, d: &Device) -> u64 {
        match w {
            Which::Active => d.active_id().or(self.made.last().copied()).unwrap_or(7),
            Which::Recent(n) => {
                let l = self.made.len();
                if l == 0 { 7 } else { self.made[l - 1 - (n as usize % l.min(4))] }
            }
            Which::Unknown => 7,
        }
    }
    fn fresh(&mut self, above: bool) -> u64 {
        self.next += 1;
        if above { 1_000_000 + self.next * 10 } else { 1_000_000 - self.next * 10 }
    }
    fn offered(&mut self, n: NewId, d: &Device) -> u64 {
        match n {
            NewId::Above => self.fresh(true),
            NewId::Below => self.fresh(false),
            NewId::Same => self.which(Which::Active, d),
            NewId::Recent(k) => self.which(Which::Recent(k), d),
        }
    }
}

fn peer(p: u8) -> String {
    format!("peer{}", p % 2)
}

fn step(d: &mut Device, ids: &mut Ids, op: &Op, seq: u64) {
    match *op {
        Op::Call { peer: p } => {
            let id = ids.fresh(true);
            ids.made.push(id);
            d.api("call", id);
            let _ = d.cm.create_outgoing_call(peer(p), CallId::new(id), CallMediaType::Audio, 1);
        }
        Op::Proceed(w) => {
            let id = ids.which(w, d);
            let _ = d
                .cm
                .proceed(CallId::new(id), format!("ctx{id}"), CallConfig::default(), None);
        }
        Op::Accept(w) => {
            let id = ids.which(w, d);
            let _ = d.cm.accept_call(CallId::new(id));
        }
        Op::Drop(w) => {
            let id = ids.which(w, d);
            let _ = d.cm.drop_call(CallId::new(id));
        }
        Op::Hangup => {
            let _ = d.cm.hangup();
        }
        Op::Offer { id, peer: p, from, old } => {
            let id = ids.offered(id, d);
            ids.made.push(id);
            d.api("offer", id);
            let _ = d.cm.received_offer(
                peer(p),
                CallId::new(id),
                received_offer(offer(CallMediaType::Video, id), if old { 61 } else { 3 }, from as u32, 1),
            );
        }
        Op::Answer { to, peer: p, from } => {
            let id = ids.which(to, d);
            let _ = d
                .cm
                .received_answer(peer(p), CallId::new(id), received_answer(answer(from as u64), from as u32));
        }
        Op::Ice { to, peer: p, from, n } => {
            let id = ids.which(to, d);
            let _ = d
                .cm
                .received_ice(peer(p), CallId::new(id), received_ice(&[n as u32], from as u32));
        }
        Op::RemoteHangup { to, peer: p, from, kind, dev } => {
            let id = ids.which(to, d);
            let _ = d.cm.received_hangup(
                peer(p),
                CallId::new(id),
                signaling::ReceivedHangup { hangup: hangup(kind, dev), sender_device_id: from as u32 },
            );
        }
        Op::Busy { to, peer: p, from } => {
            let id = ids.which(to, d);
            let _ = d.cm.received_busy(
                peer(p),
                CallId::new(id),
                signaling::ReceivedBusy { sender_device_id: from as u32 },
            );
        }
        Op::Sent => {
            d.api("sent", 0);
            let _ = d.cm.message_sent(CallId::new(ids.which(Which::Active, d)));
        }
        Op::NotSent(w) => {
            let id = ids.which(w, d);
            d.api("not-sent", id);
            let _ = d.cm.message_send_failure(CallId::new(id));
        }
        Op::Conn(dev, c) => {
            if let Ok(call) = d.cm.active_call() {
                let id = call.call_id().as_u64();
                if let Ok(mut conn) = call.get_connection(dev as u32) {
                    drop(call);
                    do_conn(&mut conn, c, id, seq);
                }
            }
        }
        Op::Timeout => {
            if let Ok(mut call) = d.cm.active_call() {
                let _ = call.inject_call_timeout();
            }
        }
        Op::Reset => {
            d.api("reset", 0);
            let _ = d.cm.reset();
        }
        Op::Break(p, n) => {
            d.sh
                .lock()
                .fail
                .insert(POINTS[p as usize % POINTS.len()], 1 + n as u32 % 2);
        }
        Op::Pause(n) => match n % 4 {
            0 => std::thread::yield_now(),
            n => std::thread::sleep(Duration::from_micros(300 * n as u64)),
        },
    }
}

/// What must be true of any log, at any point.
fn audit(log: &[Rec], done: bool) -> Res {
    let mut made: BTreeMap<u64, u32> = BTreeMap::new();
    let mut reset_after: BTreeSet<u64> = BTreeSet::new();
    let mut at: BTreeMap<u64, Vec<(usize, &'static str)>> = BTreeMap::new();
    let mut live: BTreeSet<u64> = BTreeSet::new();
    let (mut sends, mut releases) = (0usize, 1usize);
    let mut resets = 0;
    for (i, r) in log.iter().enumerate() {
        match r {
            Rec::Api("call" | "offer", id) => {
                *made.entry(*id).or_default() += 1;
                releases += 1;
            }
            Rec::Api("sent" | "not-sent", _) => releases += 1,
            Rec::Api("reset", _) => {
                releases += 1;
                resets += 1;
                reset_after.extend(made.keys());
            }
            _ => {}
        }
        if r.is_send() {
            sends += 1;
            ensure!(
                sends <= releases,
                "a signaling message was handed over while the previous one is still being sent: {}",
                show(&log[..=i])
            );
        }
        match r {
            Rec::Start { call, .. } => {
                at.entry(*call).or_default().push((i, "start"));
                live.insert(*call);
                ensure!(
                    resets > 0 || live.len() == 1,
                    "calls {live:?} are in progress at the same time: {}",
                    show(&log[..=i])
                );
            }
            Rec::Ended { call, .. } => {
                at.entry(*call).or_default().push((i, "end"));
                live.remove(call);
            }
            Rec::Concluded { call, .. } => at.entry(*call).or_default().push((i, "conclude")),
            _ => {}
        }
    }
    for (id, n) in &made {
        let none = vec![];
        let ev = at.get(id).unwrap_or(&none);
        let count = |w: &str| ev.iter().filter(|e| e.1 == w).count() as u32;
        let (s, e, c) = (count("start"), count("end"), count("conclude"));
        let tail = || show(log);
        ensure!(e <= *n && s <= *n && c <= *n, "call {id}: {s} starts, {e} ends, {c} conclusions: {}", tail());
        if done {
            ensure!(c == *n, "call {id} was concluded {c} times: {}", tail());
            if !reset_after.contains(id) {
                ensure!(e >= s, "call {id} was started {s} times and ended {e} times: {}", tail());
            }
        }
        if *n == 1 {
            let order: Vec<_> = ev.iter().map(|e| e.1).collect();
            ensure!(
                matches!(
                    order[..],
                    [] | ["start"] | ["end"] | ["conclude"] | ["start", "end"] | ["start", "conclude"] | ["end", "conclude"] | ["start", "end", "conclude"]
                ),
                "call {id} went through {order:?}: {}",
                tail()
            );
            if let Some((i, _)) = ev.iter().find(|e| e.1 == "conclude") {
                let later = log[i + 1..].iter().find(|r| r.call() == Some(*id));
                ensure!(later.is_none(), "call {id} was concluded, and then: {}; {}", later.unwrap().short(), tail());
            }
        }
    }
    Ok(())
}

fn lifecycle(ops: &Vec<Op>, o: &mut Obs) -> Res {
    let mut d = Device::new();
    let mut ids = Ids { made: vec![], next: 0 };
    for (i, op) in ops.iter().enumerate() {
        step(&mut d, &mut ids, op, i as u64 + 1);
    }
    d.sh.lock().fail.clear();
    d.flush()?;
    let _ = d.cm.hangup();
    d.flush()?;
    let r = (|| -> Res {
        let expected: BTreeMap<u64, usize> = ids.made.iter().fold(BTreeMap::new(), |mut m, id| {
            *m.entry(*id).or_default() += 1;
            m
        });
        // Queued messages keep the call they belong to, so let them go out.
        for _ in 0..ids.made.len() * 4 + 40 {
            d.api("sent", 0);
            let _ = d.cm.message_sent(CallId::new(7));
        }
        d.flush()?;
        let all = d.sh.wait(LONG, |l| {
            expected.iter().all(|(id, n)| {
                l.iter()
                    .filter(|r| matches!(r, Rec::Concluded { call, .. } if call == id))
                    .count()
                    >= *n
            })
        });
        audit(&d.log(), false)?;
        ensure!(all, "some call was never concluded: {}", show(&d.log()));
        audit(&d.log(), true)?;
        ensure!(!d.cm.busy(), "still busy after every call ended: {}", show(&d.log()));
        ensure!(
            !d.cm.call_active().unwrap_or(true),
            "a call is still active after every call ended: {}",
            show(&d.log())
        );
        // And the next call goes through.
        let id = 42;
        d.api("call", id);
        let _ = d.cm.create_outgoing_call("peer9".into(), CallId::new(id), CallMediaType::Audio, 1);
        ensure!(
            d.sh.wait(LONG, |l| l.iter().any(|r| matches!(r, Rec::Start { call: 42, .. }))),
            "a new call was not started: {}",
            show(&d.log())
        );
        let _ = d.cm.proceed(CallId::new(id), "c".into(), CallConfig::default(), None);
        ensure!(
            d.sh.wait(LONG, |l| l.iter().any(|r| matches!(r, Rec::SendOffer { call: 42, .. }))),
            "a new call's offer was not sent: {}",
            show(&d.log())
        );
        let _ = d.cm.hangup();
        d.flush()?;
        d.api("sent", id);
        let _ = d.cm.message_sent(CallId::new(id));
        d.flush()?;
        ensure!(d.concluded(id), "the new call was not concluded: {}", show(&d.log()));
        audit(&d.log(), true)
    })();
    let log = d.log();
    let n = |f: &dyn Fn(&Rec) -> bool| log.iter().filter(|r| f(r)).count();
    let started = n(&|r| matches!(r, Rec::Start { .. })).saturating_sub(1);
    o.label_if(started > 1, "several calls started");
    o.label_if(
        n(&|r| matches!(r, Rec::Ended { reason: ringrtc::common::CallEndReason::RemoteGlare, .. })) > 0,
        "glare",
    );
    o.label_if(
        n(&|r| matches!(r, Rec::Ended { reason: ringrtc::common::CallEndReason::RemoteReCall, .. })) > 0,
        "recall",
    );
    o.label_if(
        n(&|r| matches!(r, Rec::Ended { reason: ringrtc::common::CallEndReason::InternalFailure, .. })) > 0,
        "internal failure",
    );
    o.label_if(
        n(&|r| matches!(r, Rec::Event { ev: ringrtc::common::ApplicationEvent::RemoteAccepted | ringrtc::common::ApplicationEvent::LocalAccepted, .. })) > 0,
        "accepted",
    );
    o.label_if(ops.iter().any(|o| matches!(o, Op::Reset)), "reset");
    o.nontrivial_if(started > 0);
    r?;
    d.close();
    Ok(())
}

fn which() -> impl Strategy<Value = Which> {
    prop_oneof![
        6 => Just(Which::Active),
        1 => (0u8..4).prop_map(Which::Recent),
        1 => Just(Which::Unknown),
    ]
}
fn conn_op() -> impl Strategy<Value = ConnOp> {
    prop_oneof![
        6 => Just(ConnOp::IceUp),
        2 => Just(ConnOp::IceFail),
        2 => Just(ConnOp::IceDown),
        3 => Just(ConnOp::Media),
        1 => any::<bool>().prop_map(ConnOp::Route),
        2 => any::<u8>().prop_map(ConnOp::LocalIce),
        4 => prop::bool::weighted(0.85).prop_map(ConnOp::Accepted),
        2 => (prop::bool::weighted(0.8), 0u8..5).prop_map(|(a, b)| ConnOp::Hangup(a, b)),
        1 => (any::<bool>(), 0u8..8).prop_map(|(a, b)| ConnOp::Status(a, b)),
        1 => (any::<bool>(), 0u32..3_000_000).prop_map(|(a, b)| ConnOp::Rate(a, b)),
        1 => Just(ConnOp::Tick),
        1 => any::<bool>().prop_map(ConnOp::SendStatus),
        1 => (0u8..2).prop_map(ConnOp::Mode),
    ]
}
fn peer_no() -> impl Strategy<Value = u8> {
    prop_oneof![5 => Just(0u8), 1 => Just(1u8)]
}
fn dev() -> impl Strategy<Value = u8> {
    prop_oneof![4 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)]
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        5 => peer_no().prop_map(|peer| Op::Call { peer }),
        10 => which().prop_map(Op::Proceed),
        8 => which().prop_map(Op::Accept),
        1 => which().prop_map(Op::Drop),
        3 => Just(Op::Hangup),
        8 => (
            prop_oneof![
                4 => Just(NewId::Above),
                3 => Just(NewId::Below),
                1 => Just(NewId::Same),
                1 => (0u8..4).prop_map(NewId::Recent)
            ],
            peer_no(),
            dev(),
            prop::bool::weighted(0.08)
        )
            .prop_map(|(id, peer, from, old)| Op::Offer { id, peer, from, old }),
        8 => (which(), peer_no(), dev()).prop_map(|(to, peer, from)| Op::Answer { to, peer, from }),
        2 => (which(), peer_no(), dev(), any::<u8>()).prop_map(|(to, peer, from, n)| Op::Ice { to, peer, from, n }),
        3 => (which(), peer_no(), dev(), 0u8..5, 0u8..4)
            .prop_map(|(to, peer, from, kind, dev)| Op::RemoteHangup { to, peer, from, kind, dev }),
        1 => (which(), peer_no(), dev()).prop_map(|(to, peer, from)| Op::Busy { to, peer, from }),
        6 => Just(Op::Sent),
        1 => which().prop_map(Op::NotSent),
        18 => (dev(), conn_op()).prop_map(|(d, c)| Op::Conn(d, c)),
        1 => Just(Op::Timeout),
        1 => Just(Op::Reset),
        2 => (0u8..11, 0u8..2).prop_map(|(a, b)| Op::Break(a, b)),
        10 => (0u8..4).prop_map(Op::Pause),
    ]
}

/// Fragments of real calls, so that histories get somewhere, mixed with anything.
fn fragment() -> impl Strategy<Value = Vec<Op>> {
    let a = Which::Active;
    let pause = (0u8..4).prop_map(Op::Pause);
    let out = (peer_no(), dev(), pause.clone(), any::<bool>()).prop_map(move |(peer, from, p, accepted)| {
        let mut v = vec![
            Op::Call { peer },
            p.clone(),
            Op::Proceed(a),
            p.clone(),
            Op::Pause(3),
            Op::Sent,
            Op::Answer { to: a, peer, from },
            Op::Pause(3),
            p.clone(),
            Op::Conn(from, ConnOp::IceUp),
            p.clone(),
            Op::Conn(from, ConnOp::Media),
            p,
        ];
        if accepted {
            v.push(Op::Conn(from, ConnOp::Accepted(true)));
        }
        v
    });
    let inc = (peer_no(), dev(), pause, any::<bool>()).prop_map(move |(peer, from, p, accepted)| {
        let mut v = vec![
            Op::Offer { id: NewId::Above, peer, from, old: false },
            p.clone(),
            Op::Proceed(a),
            Op::Pause(3),
            p.clone(),
            Op::Conn(from, ConnOp::IceUp),
            p.clone(),
            Op::Conn(from, ConnOp::Media),
            p.clone(),
            Op::Pause(2),
        ];
        if accepted {
            v.push(Op::Accept(a));
            v.push(p);
        }
        v
    });
    prop_oneof![2 => out, 2 => inc, 6 => prop::collection::vec(op(), 1..6)]
}

pub fn history(max: usize) -> impl Strategy<Value = Vec<Op>> {
    prop::collection::vec(fragment(), 1..max).prop_map(|v| v.into_iter().flatten().collect())
}

pub fn c15(r: &mut Runner) {
    r.facet(
        "histories",
        "some call was started",
        par(6000),
        || history(7),
        |ops: &Vec<Op>, o: &mut Obs| lifecycle(ops, o),
    );
}

pub fn c16(r: &mut Runner) {
    r.facet(
        "collisions",
        "an offer met a call in progress",
        par(3000),
        model::collisions,
        |ops: &Vec<model::Op>, o: &mut Obs| model::run(ops, o, &["busy", "glare won", "glare lost", "recall", "glare with equal ids"]),
    );
}

pub fn c17(r: &mut Runner) {
    r.facet(
        "ringing devices",
        "several devices of the callee took part",
        par(3000),
        model::forked,
        |ops: &Vec<model::Op>, o: &mut Obs| model::run(ops, o, &["several devices ringing"]),
    );
}

pub fn c18(r: &mut Runner) {
    r.facet(
        "talking",
        "a call was accepted",
        par(3000),
        model::talking,
        |ops: &Vec<model::Op>, o: &mut Obs| model::run(ops, o, &["accepted"]),
    );
}

pub fn c19(r: &mut Runner) {
    let wanted = [
        "ended: hung up",
        "ended: dropped",
        "ended: remote hangup",
        "ended: permission needed",
        "ended: accepted elsewhere",
        "ended: declined elsewhere",
        "ended: busy elsewhere",
        "ended: remote busy",
        "ended: timeout",
        "ended: signaling failure",
        "ended: connection failure",
    ];
    r.facet(
        "endings",
        "a call was hung up, dropped, refused, timed out or failed",
        par(3000),
        model::ending,
        |ops: &Vec<model::Op>, o: &mut Obs| model::run(ops, o, &wanted),
    );
    r.facet(
        "histories",
        "a call was hung up, dropped, refused, timed out or failed",
        par(2000),
        model::anything,
        |ops: &Vec<model::Op>, o: &mut Obs| model::run(ops, o, &wanted),
    );
}

/// The names of the threads of this process that belong to calls and devices.
fn threads() -> BTreeMap<String, usize> {
    let mut n = BTreeMap::new();
    for t in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
        if let Ok(name) = std::fs::read_to_string(t.path().join("comm")) {
            let name = name.trim().to_string();
            if ["call", "connection", "fsm", "cm-"].iter().any(|p| name.starts_with(p)) {
                *n.entry(name).or_default() += 1;
            }
        }
    }
    n
}

pub fn c21(r: &mut Runner) {
    r.facet(
        "leftovers",
        "some call was started or refused",
        seq(400),
        model::some_history,
        |ops: &Vec<model::Op>, o: &mut Obs| {
            let before = threads();
            let labels = ["busy", "glare won", "glare lost", "recall", "accepted", "ended: hung up", "ended: dropped", "ended: remote hangup"];
            model::run(ops, o, &labels)?;
            let end = std::time::Instant::now() + LONG;
            loop {
                let now = threads();
                let left: Vec<_> =
                    now.iter().filter(|(k, n)| **n > before.get(*k).copied().unwrap_or(0)).map(|(k, n)| format!("{n} {k}")).collect();
                if left.is_empty() {
                    return Ok(());
                }
                ensure!(std::time::Instant::now() < end, "with every call over there still are {}", left.join(", "));
                std::thread::sleep(Duration::from_millis(1));
            }
        },
    );
}

#[allow(unused)]
fn _unused(_: Fail) {}
