//! A call by link whose server hands out endorsements: which are believed,
//! and with which of them media keys go out (C27, C09).
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
    time::{Duration, Instant, SystemTime, UNIX_EPOCH},
};

use harness::*;
use libsignal_core::Aci;
use prost::Message as _;
use proptest::{prelude::*, sample::select};
use ringrtc::{
    core::{
        endorsements::EndorsementsCache,
        group_call::{GroupCallKind, JoinState},
    },
    lite::{
        call_links::{CallLinkMemberResolver, CallLinkRootKey},
        sfu::{ObfuscatedResolver, PeekDeviceInfo, PeekInfo, UserId},
    },
    protobuf::{
        group_call::{
            SfuToDevice,
            sfu_to_device::{
                DeviceJoinedOrLeft, PeekInfo as WirePeek, SendEndorsementsResponse,
                peek_info::PeekDeviceInfo as WireDevice,
            },
        },
        signaling::CallMessage,
    },
};
use serde::{Deserialize, Serialize};
use zkgroup::{
    ServerSecretParams, Timestamp,
    call_links::CallLinkSecretParams,
    groups::{GroupSendDerivedKeyPair, GroupSendEndorsementsResponse},
};

use crate::{
    gmodel::{N, id, owner},
    group::*,
};

const USERS: u8 = 9;
const ME: u32 = 16;
const DAY: u64 = 86_400;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Flaw {
    None,
    NoSet,
    NoMembers,
    Garbled,
    Expired,
    TooFar,
    OtherServer,
    /// A member of another call among them.
    Stranger,
    /// An id that is none.
    Cut,
    /// One member too few, or too many, are named.
    Fewer,
    More,
    Swapped,
    Tampered,
    /// Endorsed for a member of another call.
    Outsider,
    /// Something no endorsement is about among the members.
    Extra,
}
/// Endorsements of these users, until so many days from now.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Set {
    days: u8,
    users: u16,
    flaw: Flaw,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// What the server says in one message: who is in the call, or that it
    /// has changed.
    Say { set: Option<Set>, toggle: u16, inline: bool },
    /// Devices come or go, which is learned by asking.
    Peek(u16),
    Set(Set),
    Resend,
    /// Until the key has changed.
    Wait,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    uuid: bool,
    cache: bool,
    key: bool,
    ops: Vec<Op>,
}

fn set() -> impl Strategy<Value = Set> {
    let flaw = prop_oneof![
        6 => Just(Flaw::None),
        2 => select(vec![
            Flaw::NoSet,
            Flaw::NoMembers,
            Flaw::Garbled,
            Flaw::Expired,
            Flaw::TooFar,
            Flaw::OtherServer,
            Flaw::Stranger,
            Flaw::Cut,
            Flaw::Fewer,
            Flaw::More,
            Flaw::Swapped,
            Flaw::Tampered,
            Flaw::Outsider,
            Flaw::Extra,
        ]),
    ];
    (2..5u8, prop_oneof![4 => Just(0x1ffu16), 2 => 0..512u16, 1 => (0..9u8).prop_map(|u| 0x1ff ^ 1 << u)], flaw)
        .prop_map(|(days, users, flaw)| Set { days, users, flaw })
}
fn devices() -> impl Strategy<Value = u16> {
    prop_oneof![
        1 => Just(0u16),
        6 => (1..N).prop_map(|d| 1 << d),
        3 => (1..N, 1..N).prop_map(|(a, b)| 1 << a | 1 << b),
        2 => any::<u16>(),
    ]
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        5 => (proptest::option::weighted(0.7, set()), devices(), prop::bool::weighted(0.8)).prop_map(|(set, toggle, inline)| Op::Say { set, toggle, inline }),
        2 => devices().prop_map(Op::Peek),
        2 => set().prop_map(Op::Set),
        1 => Just(Op::Resend),
    ]
}
pub fn cases() -> impl Strategy<Value = Case> {
    (prop::bool::weighted(0.85), prop::bool::weighted(0.95), prop::bool::weighted(0.95), prop::collection::vec(op(), 1..14))
        .prop_map(|(uuid, cache, key, ops)| Case { uuid, cache, key, ops })
}
/// As above, with a change of the key.
pub fn long_cases() -> impl Strategy<Value = Case> {
    let few = || prop::collection::vec(op(), 2..8);
    (few(), few()).prop_map(|(mut ops, more)| {
        ops.push(Op::Wait);
        ops.extend(more);
        Case { uuid: true, cache: true, key: true, ops }
    })
}

type Map = BTreeMap<u8, Vec<u8>>;
#[derive(Default)]
struct Known {
    by_user: Map,
    spoilt: bool,
}
/// One message with a key, to those who need it.
#[derive(Debug)]
struct Send {
    to: BTreeSet<u8>,
    with: Option<u64>,
}

struct World {
    rig: Rig,
    uuid: bool,
    cache: bool,
    key: bool,
    params: CallLinkSecretParams,
    today: u64,
    here: BTreeSet<u8>,
    known: BTreeMap<u64, Known>,
    ts: u32,
    /// since when a new key is about to be used; whether another one follows
    pending: Option<(Instant, bool)>,
    sent: u32,
}

fn aci(u: u8) -> Aci {
    Aci::from_uuid_bytes(user(u).try_into().unwrap())
}

impl World {
    fn name(&self, u: u8) -> Vec<u8> {
        zkgroup::serialize(&self.params.encrypt_uid(aci(u)))
    }
    fn users(&self) -> BTreeSet<u8> {
        self.here.iter().map(|&d| owner(d)).collect()
    }
    /// What the server sends, and which endorsements it has: None if it's not
    /// to be believed.
    fn response(&self, s: &Set) -> (SendEndorsementsResponse, u64, Option<Map>) {
        let days = match s.flaw {
            Flaw::Expired => self.today - s.days as u64,
            Flaw::TooFar => self.today + 6 + s.days as u64,
            _ => self.today + s.days as u64,
        };
        let until = Timestamp::from_epoch_seconds(days * DAY);
        let server = ServerSecretParams::generate([1 + (s.flaw == Flaw::OtherServer) as u8; 32]);
        let mut users: Vec<u8> = (0..USERS).filter(|u| s.users >> u & 1 == 1).collect();
        if users.is_empty() {
            users.push(1);
        }
        let mut names: Vec<_> = users.iter().map(|&u| self.params.encrypt_uid(aci(u))).collect();
        if s.flaw == Flaw::Outsider {
            let n = users.len() / 2;
            names[n] = CallLinkSecretParams::derive_from_root_key(&[8; 16]).encrypt_uid(aci(users[n]));
        }
        let key = GroupSendDerivedKeyPair::for_expiration(until, &server);
        let issued = GroupSendEndorsementsResponse::issue(names.clone(), &key, [9; 32]);
        let genuine = issued.clone().receive_with_ciphertexts(
            names.clone(),
            Timestamp::from_epoch_seconds(until.epoch_seconds() - DAY),
            server.get_public_params().get_endorsement_public_key(),
        );
        let map: Map = users.iter().zip(genuine.expect("genuine")).map(|(u, e)| (*u, zkgroup::serialize(&e.decompressed))).collect();
        let mut serialized = Some(zkgroup::serialize(&issued));
        let mut members: Vec<Vec<u8>> = names.iter().map(zkgroup::serialize).collect();
        let mut good = s.flaw == Flaw::None;
        match s.flaw {
            Flaw::None | Flaw::Expired | Flaw::TooFar | Flaw::OtherServer => {}
            Flaw::NoSet => serialized = None,
            Flaw::NoMembers => members.clear(),
            Flaw::Garbled => {
                let v = serialized.as_mut().unwrap();
                v.truncate(v.len() / 2);
            }
            Flaw::Stranger => {
                let other = CallLinkSecretParams::derive_from_root_key(&[8; 16]);
                *members.last_mut().unwrap() = zkgroup::serialize(&other.encrypt_uid(aci(*users.last().unwrap())));
            }
            Flaw::Outsider => {}
            Flaw::Extra => members.push(b"somebody".to_vec()),
            Flaw::Cut => {
                members[0].pop();
            }
            Flaw::Fewer => {
                members.pop();
            }
            Flaw::More => members.push(self.name(0)),
            Flaw::Swapped => {
                good = members.len() < 2;
                let n = members.len();
                members.swap(0, n - 1);
            }
            Flaw::Tampered => {
                // An endorsement other than the one that was issued.
                let v = serialized.as_mut().unwrap();
                v[12] ^= 1;
            }
        }
        (SendEndorsementsResponse { serialized, member_ciphertexts: members }, days * DAY, good.then_some(map))
    }
    /// Takes note of a set; the expiration if it's used.
    fn learn(&mut self, s: &Set, reported: &mut Vec<Option<u64>>, o: &mut Obs) -> (SendEndorsementsResponse, Option<u64>) {
        let (r, until, map) = self.response(s);
        if !self.cache {
            return (r, None);
        }
        // Whether it gets so far that the members and the proof are looked at.
        let checked = !matches!(s.flaw, Flaw::NoSet | Flaw::NoMembers | Flaw::Garbled | Flaw::Expired) && !r.member_ciphertexts.is_empty();
        if checked && !self.key {
            return (r, None);
        }
        if let Some(map) = map {
            self.known.entry(until).or_default().by_user.extend(map);
            self.known.get_mut(&until).unwrap().spoilt = false;
            reported.push(Some(until));
            return (r, Some(until));
        }
        o.label("endorsements not to be believed");
        if checked {
            if let Some(k) = self.known.get_mut(&until) {
                k.spoilt = true;
                o.label("endorsements used up to now became doubtful");
            }
        }
        reported.push(None);
        (r, None)
    }
    /// The endorsements with which users get a key.
    fn select(&self, with: Option<u64>, to: &BTreeSet<u8>) -> Option<(u64, Map)> {
        if !self.cache {
            return None;
        }
        let (until, k) = match with {
            Some(u) => self.known.get_key_value(&u)?,
            None => self.known.last_key_value()?,
        };
        if k.spoilt {
            return None;
        }
        let map: Option<Map> = to.iter().map(|u| k.by_user.get(u).map(|e| (*u, e.clone()))).collect();
        Some((*until, map?))
    }
    fn wire(&self) -> WirePeek {
        WirePeek {
            era_id: Some("1111111111111111".into()),
            max_devices: Some(40),
            devices: self
                .here
                .iter()
                .chain([&0])
                .map(|&d| WireDevice { demux_id: Some(id(d)), opaque_user_id: Some(hex::encode(self.name(owner(d)))) })
                .collect(),
            ..Default::default()
        }
    }
    fn say(&mut self, m: SfuToDevice) {
        self.ts += 1;
        self.rig.rtp(1, self.ts, &m.encode_to_vec());
    }
    fn answer(&mut self) -> Res {
        let mut n = 0;
        loop {
            ensure!(self.rig.sync(), "the client has stopped");
            let Some(cb) = self.rig.asked.lock().unwrap().peeks.pop_front() else { break };
            let p = PeekInfo {
                devices: self
                    .here
                    .iter()
                    .chain([&0])
                    .map(|&d| PeekDeviceInfo { demux_id: id(d), user_id: Some(user(owner(d))) })
                    .collect(),
                pending_devices: vec![],
                creator: None,
                era_id: Some("1111111111111111".into()),
                max_devices: Some(40),
                call_link_state: None,
            };
            cb(Ok(p));
            n += 1;
        }
        ensure!(n > 0, "the client doesn't ask who is in the call");
        Ok(())
    }
    /// Devices come or go: the keys that have to be sent.
    fn change(&mut self, toggle: u16, with: Option<u64>) -> Vec<Send> {
        let before = self.users();
        let mut added = BTreeSet::new();
        for d in 1..N {
            if toggle >> d & 1 == 1 && !self.here.remove(&d) {
                self.here.insert(d);
                added.insert(owner(d));
            }
        }
        let after = self.users();
        let mut sends = vec![];
        if !added.is_empty() {
            sends.push(Send { to: added.clone(), with });
            if self.pending.is_some() {
                sends.push(Send { to: added, with });
            }
        }
        if before.difference(&after).any(|&u| u != 0) {
            if let Some((_, again)) = &mut self.pending {
                *again = true;
            } else {
                self.pending = Some((Instant::now(), false));
                sends.push(Send { to: after, with });
            }
        }
        sends.retain(|s| !s.to.is_empty());
        sends
    }
    /// Whether what was sent is what had to be.
    fn check(&mut self, sends: Vec<Send>, reported: Vec<Option<u64>>, free: bool, o: &mut Obs) -> Res {
        ensure!(self.rig.sync(), "the client has stopped");
        let mut told = vec![];
        type Key = (u32, Vec<u8>);
        let mut keys: Vec<(Key, Vec<(u64, Map)>, Vec<u8>)> = vec![];
        let find = |keys: &mut Vec<(Key, Vec<(u64, Map)>, Vec<u8>)>, m: &CallMessage| {
            let k = m.group_call_message.as_ref().and_then(|m| m.media_key.clone())?;
            let k = (k.ratchet_counter(), k.secret().to_vec());
            Some(keys.iter().position(|x| x.0 == k).unwrap_or_else(|| {
                keys.push((k, vec![], vec![]));
                keys.len() - 1
            }))
        };
        let number = |u: &UserId| u[0] - 1;
        for e in self.rig.log.take() {
            match e {
                Ev::Direct { to, msg, .. } => {
                    if let Some(i) = find(&mut keys, &msg) {
                        keys[i].2.push(number(&to));
                    }
                }
                Ev::Adhoc { msg, expiration, to, .. } => {
                    let Some(i) = find(&mut keys, &msg) else { fail!("no key in {msg:?}") };
                    let to: Map = to.iter().map(|(u, e)| (number(u), e.clone())).collect();
                    // To nobody is to nobody.
                    if !to.is_empty() {
                        keys[i].1.push((expiration, to));
                    }
                }
                Ev::Group { msg, .. } => fail!("sent to the group of a call by link: {msg:?}"),
                Ev::Endorsements(r) => told.push(r),
                _ => {}
            }
        }
        keys.retain(|k| !k.1.is_empty() || !k.2.is_empty());
        let show = |keys: &Vec<(Key, Vec<(u64, Map)>, Vec<u8>)>| {
            let v: Vec<_> = keys
                .iter()
                .map(|k| (k.1.iter().map(|a| (a.0 / DAY - self.today, a.1.keys().collect::<Vec<_>>())).collect::<Vec<_>>(), &k.2))
                .collect();
            format!("{v:?}")
        };
        ensure!(keys.len() == sends.len(), "{} keys were sent instead of {sends:?}: {}", keys.len(), show(&keys));
        for (k, s) in keys.iter().zip(&sends) {
            let mut to = s.to.clone();
            let mut alone: Vec<u8> = (self.uuid && to.remove(&0)).then_some(0).into_iter().collect();
            let mut want = self.select(s.with, &to);
            if free && let Some((until, _)) = k.1.first() {
                // With any set that is valid.
                want = self.select(Some(*until), &to);
                ensure!(want.is_some(), "sent with endorsements until {until}, which aren't valid: {}", show(&keys));
            }
            if free && k.1.is_empty() {
                want = None;
            }
            if want.is_none() {
                alone.extend(&to);
            } else if !to.is_empty() {
                self.sent += 1;
                o.label("sent with endorsements");
            }
            if self.cache && want.is_none() && !to.is_empty() && !self.known.is_empty() {
                o.label("sent one by one for want of endorsements");
            }
            let mut got = k.2.clone();
            got.sort_unstable();
            alone.sort_unstable();
            ensure!(got == alone, "one by one to {got:?} instead of {alone:?}; {s:?}: {}", show(&keys));
            let want: Vec<(u64, Map)> = want.into_iter().filter(|w| !w.1.is_empty()).collect();
            ensure!(k.1.len() == want.len(), "{s:?} was sent as {}, wanted with {:?}", show(&keys), want.iter().map(|w| w.0).collect::<Vec<_>>());
            for (g, w) in k.1.iter().zip(&want) {
                ensure!(g.0 == w.0, "sent with endorsements until {} instead of {}", g.0, w.0);
                ensure!(g.1.keys().eq(w.1.keys()), "sent with endorsements for {:?} instead of {:?}", g.1.keys(), w.1.keys());
                ensure!(g.1 == w.1, "sent with other endorsements than those of the recipients");
            }
        }
        // What the app is told.
        let good: Vec<u64> = told.iter().filter_map(|t| t.as_ref().ok()).map(|t| t.0).collect();
        let wanted: Vec<u64> = reported.iter().flatten().copied().collect();
        ensure!(good == wanted, "the app was told of endorsements until {good:?} instead of {wanted:?}");
        for (until, all) in told.iter().flatten() {
            let all: Map = all.iter().map(|(u, e)| (number(u), e.clone())).collect();
            ensure!(all == self.known[until].by_user, "the app was told of other endorsements than there are");
        }
        let bad = told.len() - good.len();
        let flawed = reported.iter().filter(|r| r.is_none()).count();
        ensure!((bad > 0) == (flawed > 0), "{bad} errors were told, there were {flawed}");
        Ok(())
    }
}

pub fn run(c: &Case, o: &mut Obs) -> Res {
    let root = [7u8; 16];
    let link = CallLinkRootKey::try_from(&root[..]).map_err(|e| Fail::from(e.to_string()))?;
    let params = CallLinkSecretParams::derive_from_root_key(&root);
    let server = ServerSecretParams::generate([1; 32]);
    let key = c.key.then(|| server.get_public_params().get_endorsement_public_key());
    let resolver = ObfuscatedResolver::new(Arc::new(CallLinkMemberResolver::from(&link)), Some(link), key);
    let cache = c.cache.then(|| EndorsementsCache::new(params));
    let rig = Rig::new(Start {
        kind: GroupCallKind::CallLink,
        me: ME,
        uuid: c.uuid.then(|| user(0)),
        ring: None,
        link: Some((resolver, cache)),
    });
    let mut w = World {
        rig,
        uuid: c.uuid,
        cache: c.cache,
        key: c.key,
        params,
        today: SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() / DAY,
        here: Default::default(),
        known: Default::default(),
        ts: 0,
        pending: None,
        sent: 0,
    };
    let cl = w.rig.client.clone();
    cl.connect();
    cl.set_membership_proof(b"proof".to_vec());
    cl.join();
    ensure!(w.rig.sync(), "the client has stopped");
    let dh = *x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from([3; 32])).as_bytes();
    cl.on_sfu_client_join_attempt_completed(Ok(w.rig.joined(JoinState::Joined(ME), None, "1111111111111111", dh, false)));
    w.answer()?;
    w.rig.log.take();
    for op in &c.ops {
        // Up to when nothing happens by itself.
        if w.pending.is_some_and(|p| p.0.elapsed() > Duration::from_millis(4000)) && *op != Op::Wait {
            o.label("slow");
            return Ok(());
        }
        let mut told = vec![];
        let mut sends = vec![];
        let mut free = false;
        match op {
            Op::Say { set, toggle, inline } => {
                let (r, with) = match set {
                    Some(s) => {
                        let (r, with) = w.learn(s, &mut told, o);
                        (Some(r), with)
                    }
                    None => (None, None),
                };
                sends = w.change(*toggle, with.filter(|_| *inline));
                let peek_info = inline.then(|| w.wire());
                w.say(SfuToDevice { endorsements: r, device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info }), ..Default::default() });
                if !inline {
                    w.answer()?;
                } else if with.is_some() && !sends.is_empty() {
                    o.label("with the endorsements of the change");
                }
            }
            Op::Peek(toggle) => {
                w.say(SfuToDevice { device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: None }), ..Default::default() });
                ensure!(w.rig.sync(), "the client has stopped");
                sends = w.change(*toggle, None);
                w.answer()?;
            }
            Op::Set(s) => {
                let (r, _) = w.learn(s, &mut told, o);
                w.say(SfuToDevice { endorsements: Some(r), ..Default::default() });
            }
            Op::Resend => {
                cl.resend_media_keys();
                let to = w.users();
                if !to.is_empty() {
                    sends.push(Send { to: to.clone(), with: None });
                    if w.pending.is_some() {
                        sends.push(Send { to, with: None });
                    }
                }
            }
            Op::Wait => {
                let Some((at, again)) = w.pending.take() else { continue };
                while at.elapsed() < Duration::from_millis(5400) {
                    std::thread::sleep(Duration::from_millis(50));
                }
                if again {
                    o.label("the key changed once more");
                    free = true;
                    w.pending = Some((at + Duration::from_secs(5), false));
                    let to = w.users();
                    if !to.is_empty() {
                        sends.push(Send { to, with: None });
                    }
                }
            }
        }
        w.check(sends, told, free, o).map_err(|f| Fail::from(format!("{op:?}: {}", f.msg)))?;
    }
    o.nontrivial_if(w.sent > 0);
    Ok(())
}

pub fn c27(r: &mut Runner) {
    believed(r);
    r.facet("endorsements and changes of the key", "keys went out with endorsements", waiting(200), long_cases, |c: &Case, o: &mut Obs| run(c, o));
}
pub fn believed(r: &mut Runner) {
    r.facet("endorsements in a call", "keys went out with endorsements", par(6000), cases, |c: &Case, o: &mut Obs| run(c, o));
}
