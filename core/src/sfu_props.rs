//! C07: peeking at and joining group calls over HTTP. C08: the delegating HTTP client.
use std::{
    collections::{HashMap, HashSet},
    net::{IpAddr, SocketAddr},
    sync::{Arc, Mutex},
    time::{Duration, SystemTime},
};

use base64::{Engine, engine::general_purpose::STANDARD as b64};
use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par};
use proptest::prelude::*;
use ringrtc::{
    lite::{
        call_links::{CallLinkRestrictions, CallLinkRootKey, CallLinkState},
        http::{self, Client as _},
        sfu::{
            self, GroupMember, MemberMap, MemberResolver, ObfuscatedResolver, PeekArgs,
            PeekDeviceInfo, PeekInfo,
        },
    },
    protobuf::group_call::sfu_to_device as proto,
};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use sha2::{Digest, Sha256};

use crate::calllink_props::{BytesRng, FakeHttp, good_key, reference_room_id, reference_valid};

fn opaque(member_id: &[u8]) -> String {
    hex::encode(Sha256::digest(member_id))
}
fn user(i: u8) -> Vec<u8> {
    vec![i, 0xaa, i]
}
fn member_id(i: u8) -> Vec<u8> {
    vec![i; 3 + i as usize % 4]
}

/// How one participant is described by the server: a member number, a stranger, or nobody.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Who {
    Member(u8),
    Stranger(u8),
    Junk(String),
    Absent,
}
impl Who {
    fn text(&self) -> Option<String> {
        match self {
            Who::Member(i) => Some(opaque(&member_id(*i))),
            Who::Stranger(i) => Some(opaque(&[0xff, *i])),
            Who::Junk(s) => Some(s.clone()),
            Who::Absent => None,
        }
    }
    fn resolved(&self, members: u8) -> Option<Vec<u8>> {
        match self {
            Who::Member(i) if *i < members => Some(user(*i)),
            _ => None,
        }
    }
}
fn who() -> impl Strategy<Value = Who> {
    prop_oneof![
        6 => (0..8u8).prop_map(Who::Member),
        1 => (0..4u8).prop_map(Who::Stranger),
        1 => "\\PC{0,6}".prop_map(Who::Junk),
        1 => Just(Who::Absent),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Link {
    name: Option<String>,
    sealed: bool,
    restrictions: u8,
    revoked: bool,
    expiration: u64,
}
impl Link {
    fn name_text(&self, key: &CallLinkRootKey) -> String {
        match &self.name {
            None => String::new(),
            Some(n) if self.sealed => b64.encode(key.encrypt(n.as_bytes(), BytesRng(vec![], 7))),
            Some(n) => b64.encode(n.as_bytes()),
        }
    }
    /// None: beyond what a clock can represent.
    fn state(&self, key: &CallLinkRootKey) -> Option<CallLinkState> {
        Some(CallLinkState {
            name: if self.sealed { self.name.clone().unwrap_or_default() } else { String::new() },
            restrictions: match self.restrictions {
                0 => CallLinkRestrictions::None,
                1 => CallLinkRestrictions::AdminApproval,
                _ => CallLinkRestrictions::Unknown,
            },
            revoked: self.revoked,
            expiration: SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(self.expiration))?,
            root_key: *key,
        })
    }
}
fn link() -> impl Strategy<Value = Link> {
    (
        proptest::option::weighted(0.8, "\\PC{0,20}"),
        proptest::bool::weighted(0.8),
        0..3u8,
        any::<bool>(),
        prop_oneof![8 => 0..4_000_000_000u64, 1 => any::<u64>()],
    )
        .prop_map(|(name, sealed, restrictions, revoked, expiration)| Link {
            name,
            sealed,
            restrictions,
            revoked,
            expiration,
        })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Peek {
    devices: Vec<(u32, Who)>,
    pending: Vec<(u32, Who)>,
    creator: Option<Who>,
    era: Option<String>,
    max: Option<u32>,
    link: Option<Link>,
}
fn peek() -> impl Strategy<Value = Peek> {
    (
        proptest::collection::vec((any::<u32>(), who()), 0..6),
        proptest::collection::vec((any::<u32>(), who()), 0..6),
        proptest::option::of(who()),
        proptest::option::of("[a-f0-9]{0,8}"),
        proptest::option::of(any::<u32>()),
        proptest::option::of(link()),
    )
        .prop_map(|(devices, pending, creator, era, max, link)| Peek { devices, pending, creator, era, max, link })
}
fn infos(d: &[(u32, Who)], members: u8) -> Vec<PeekDeviceInfo> {
    d.iter().map(|(id, w)| PeekDeviceInfo { demux_id: *id, user_id: w.resolved(members) }).collect()
}
impl Peek {
    fn json(&self, key: &CallLinkRootKey, explicit_null: bool) -> Value {
        let people = |d: &[(u32, Who)]| {
            d.iter()
                .map(|(id, w)| {
                    let mut v = json!({"demuxId": id});
                    if let Some(t) = w.text() {
                        v["opaqueUserId"] = json!(t);
                    } else if explicit_null {
                        v["opaqueUserId"] = Value::Null;
                    }
                    v
                })
                .collect::<Vec<_>>()
        };
        let mut v = json!({"participants": people(&self.devices)});
        if !self.pending.is_empty() || explicit_null {
            v["pendingClients"] = json!(people(&self.pending));
        }
        let mut put = |k: &str, x: Option<Value>| {
            if let Some(x) = x {
                v[k] = x;
            } else if explicit_null {
                v[k] = Value::Null;
            }
        };
        put("conferenceId", self.era.as_ref().map(|e| json!(e)));
        put("maxDevices", self.max.map(|e| json!(e)));
        put("creator", self.creator.as_ref().and_then(|c| c.text()).map(|t| json!(t)));
        put(
            "callLinkState",
            self.link.as_ref().map(|l| {
                json!({"name": l.name_text(key),
                       "restrictions": (["none", "adminApproval", "new"][l.restrictions as usize]),
                       "revoked": l.revoked, "expiration": l.expiration})
            }),
        );
        v
    }
    fn expected(&self, members: u8, key: Option<&CallLinkRootKey>) -> (PeekInfo, bool) {
        let link = match (&self.link, key) {
            (Some(l), Some(k)) => match l.state(k) {
                None => return (PeekInfo::default(), false),
                s => s,
            },
            _ => None,
        };
        let info = PeekInfo {
            devices: infos(&self.devices, members),
            pending_devices: infos(&self.pending, members),
            creator: self.creator.as_ref().and_then(|c| c.resolved(members)),
            era_id: self.era.clone(),
            max_devices: self.max,
            call_link_state: link,
        };
        (info, true)
    }
}

fn members(n: u8) -> Arc<MemberMap> {
    Arc::new(MemberMap::new(
        &(0..n).map(|i| GroupMember { user_id: user(i), member_id: member_id(i) }).collect::<Vec<_>>(),
    ))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    Remove,
    Retype(u8),
    Truncate(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Answer {
    Good(Peek, bool),
    Damaged(Peek, Damage),
    Raw(Vec<u8>),
    Reason(String),
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PeekCase {
    key: Option<Vec<u8>>,
    room: Option<String>,
    auth: String,
    url: String,
    members: u8,
    status: u16,
    answer: Option<Answer>,
}

fn expected_headers(key: Option<&[u8]>, room: &Option<String>, auth: &str, json: bool) -> HashMap<String, String> {
    let mut h = HashMap::from([("Authorization".to_string(), auth.to_string())]);
    if json {
        h.insert("Content-Type".into(), "application/json".into());
    }
    if let Some(k) = key {
        h.insert("X-Room-Id".into(), hex::encode(reference_room_id(k)));
        if k.len() == 21 {
            h.insert("X-Epoch".into(), u32::from_be_bytes(k[17..].try_into().unwrap()).to_string());
        }
    } else if let Some(r) = room {
        h.insert("X-Room-Id".into(), r.clone());
    }
    h
}

fn damage(mut v: Value, d: &Damage, field: &str) -> Vec<u8> {
    match d {
        Damage::Remove => {
            v.as_object_mut().unwrap().remove(field);
            serde_json::to_vec(&v).unwrap()
        }
        Damage::Retype(k) => {
            v[field] = match k % 4 {
                0 => json!(-1),
                1 => json!({"x": 1}),
                2 => json!(1.5),
                _ => json!(true),
            };
            serde_json::to_vec(&v).unwrap()
        }
        Damage::Truncate(n) => {
            let b = serde_json::to_vec(&v).unwrap();
            let keep = *n as usize % b.len();
            b[..keep].to_vec()
        }
    }
}

fn peek_case(c: &PeekCase, obs: &mut Obs) -> Res {
    let key = c.key.as_ref().map(|k| CallLinkRootKey::try_from(k.as_slice()).expect("well-formed key"));
    let some_key = key.unwrap_or_else(|| CallLinkRootKey::try_from([1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16].as_slice()).unwrap());
    let body = match &c.answer {
        None => vec![],
        Some(Answer::Good(p, null)) => serde_json::to_vec(&p.json(&some_key, *null)).unwrap(),
        Some(Answer::Damaged(p, d)) => damage(p.json(&some_key, false), d, "participants"),
        Some(Answer::Raw(b)) => b.clone(),
        Some(Answer::Reason(r)) => serde_json::to_vec(&json!({"reason": r})).unwrap(),
        Some(Answer::Empty) => vec![],
    };
    let response = c.answer.as_ref().map(|_| http::Response { status: c.status.into(), body: body.clone() });
    let client = FakeHttp { requests: Default::default(), answer: Some(response) };
    let results = Arc::new(Mutex::new(vec![]));
    let sink = results.clone();
    sfu::peek(
        &client,
        &c.url,
        PeekArgs {
            room_id_header: c.room.clone(),
            auth_header: c.auth.clone(),
            member_resolver: members(c.members),
            call_link_root_key: key,
        },
        Box::new(move |r| sink.lock().unwrap().push(r)),
    );
    let results = std::mem::take(&mut *results.lock().unwrap());
    let requests = client.requests.into_inner().unwrap();
    ensure_eq!(results.len(), 1, "the caller must get exactly one result");
    let got = &results[0];
    if c.key.as_ref().is_some_and(|k| !reference_valid(k)) {
        ensure!(requests.is_empty(), "sent a request for an unusable key");
        ensure_eq!(got.as_ref().err(), Some(&http::ResponseStatus::CALL_LINK_INVALID));
        obs.label("unusable key");
        return Ok(());
    }
    ensure_eq!(requests.len(), 1);
    let q = &requests[0];
    ensure_eq!(q.method, http::Method::Get);
    ensure_eq!(q.url, format!("{}/v2/conference/participants", c.url.trim_end_matches('/')));
    ensure!(q.body.is_none());
    ensure_eq!(q.headers, expected_headers(c.key.as_deref(), &c.room, &c.auth, false));
    obs.nontrivial_if(matches!(&c.answer, Some(Answer::Good(p, _)) if !p.devices.is_empty()) || c.status == 404);

    let Some(answer) = &c.answer else {
        ensure_eq!(got.as_ref().err(), Some(&http::ResponseStatus::REQUEST_FAILED));
        return Ok(());
    };
    if c.status == 404 {
        match (answer, body.is_empty()) {
            (_, true) => {
                obs.label("not started");
                ensure_eq!(got.as_ref().ok(), Some(&PeekInfo::default()), "404 without a body means nobody is there");
            }
            (Answer::Reason(r), _) => {
                obs.label("404 with reason");
                let want = match r.as_str() {
                    "expired" => http::ResponseStatus::CALL_LINK_EXPIRED,
                    "invalid" => http::ResponseStatus::CALL_LINK_INVALID,
                    _ => http::ResponseStatus::GROUP_CALL_NOT_STARTED,
                };
                ensure_eq!(got.as_ref().err(), Some(&want));
            }
            // any other body: not a reason we know
            (Answer::Raw(_), _) => {
                ensure!(got.is_err());
            }
            _ => ensure_eq!(got.as_ref().err(), Some(&http::ResponseStatus::GROUP_CALL_NOT_STARTED)),
        }
        return Ok(());
    }
    if !(200..300).contains(&c.status) {
        ensure_eq!(got.as_ref().err().map(|s| s.code), Some(c.status));
        return Ok(());
    }
    match answer {
        Answer::Good(p, _) => {
            let (want, known) = p.expected(c.members, key.as_ref());
            if known {
                ensure_eq!(got.as_ref().ok(), Some(&want));
                obs.label("peeked");
                obs.label_if(want.call_link_state.is_some(), "with call link state");
                let info = got.as_ref().unwrap();
                let want_users: HashSet<_> = want.devices.iter().filter_map(|d| d.user_id.clone()).collect();
                ensure_eq!(info.unique_users().into_iter().cloned().collect::<HashSet<_>>(), want_users);
                let mut pending: Vec<Vec<u8>> = vec![];
                for d in &want.pending_devices {
                    if let Some(u) = &d.user_id
                        && !pending.contains(u)
                    {
                        pending.push(u.clone());
                    }
                }
                ensure_eq!(info.unique_pending_users().into_iter().cloned().collect::<Vec<_>>(), pending);
                ensure_eq!(info.device_count_including_pending_devices(), p.devices.len() + p.pending.len());
            } else {
                ensure!(got.is_ok());
            }
        }
        Answer::Damaged(..) | Answer::Reason(_) | Answer::Empty => {
            ensure_eq!(got.as_ref().err(), Some(&http::ResponseStatus::INVALID_RESPONSE_BODY_JSON));
            obs.label("damaged answer");
        }
        Answer::Raw(_) => {}
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct JoinAnswer {
    demux: u32,
    ips: Vec<IpAddr>,
    port: u16,
    tcp: u16,
    tls: Option<u16>,
    hostname: Option<String>,
    ufrag: String,
    pwd: String,
    dhe: [u8; 32],
    creator: Option<Who>,
    era: String,
    status: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum JAnswer {
    Good(JoinAnswer),
    Damaged(JoinAnswer, u8, Damage),
    Raw(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct JoinCase {
    key: Option<Vec<u8>>,
    room: Option<String>,
    auth: String,
    url: String,
    members: u8,
    passkey: Option<Vec<u8>>,
    ufrag: String,
    pwd: String,
    dhe: Vec<u8>,
    extra: Vec<u8>,
    status: u16,
    answer: Option<JAnswer>,
}

const JOIN_FIELDS: [&str; 9] = ["demuxId", "ips", "port", "portTcp", "iceUfrag", "icePwd", "dhePublicKey", "conferenceId", "clientStatus"];

fn join_json(a: &JoinAnswer) -> Value {
    let mut v = json!({"demuxId": a.demux, "ips": a.ips, "port": a.port, "portTcp": a.tcp, "iceUfrag": a.ufrag,
        "icePwd": a.pwd, "dhePublicKey": hex::encode(a.dhe), "conferenceId": a.era, "clientStatus": a.status});
    if let Some(t) = a.tls {
        v["portTls"] = json!(t);
    }
    if let Some(t) = &a.hostname {
        v["hostname"] = json!(t);
    }
    if let Some(t) = a.creator.as_ref().and_then(|c| c.text()) {
        v["callCreator"] = json!(t);
    }
    v
}

fn join_case(c: &JoinCase, obs: &mut Obs) -> Res {
    let key = c.key.as_ref().map(|k| CallLinkRootKey::try_from(k.as_slice()).expect("well-formed key"));
    let body = match &c.answer {
        None => vec![],
        Some(JAnswer::Good(a)) => serde_json::to_vec(&join_json(a)).unwrap(),
        Some(JAnswer::Damaged(a, f, d)) => damage(join_json(a), d, JOIN_FIELDS[*f as usize % JOIN_FIELDS.len()]),
        Some(JAnswer::Raw(b)) => b.clone(),
    };
    let response = c.answer.as_ref().map(|_| http::Response { status: c.status.into(), body });
    let client = FakeHttp { requests: Default::default(), answer: Some(response) };
    let results = Arc::new(Mutex::new(vec![]));
    let sink = results.clone();
    sfu::join(
        &client,
        &c.url,
        c.room.clone(),
        key,
        c.auth.clone(),
        c.passkey.as_deref(),
        &c.ufrag,
        &c.pwd,
        &c.dhe,
        &c.extra,
        members(c.members),
        Box::new(move |r| sink.lock().unwrap().push(r)),
    );
    let results = std::mem::take(&mut *results.lock().unwrap());
    let requests = client.requests.into_inner().unwrap();
    ensure_eq!(results.len(), 1, "the caller must get exactly one result");
    let got = &results[0];
    if c.key.as_ref().is_some_and(|k| !reference_valid(k)) {
        ensure!(requests.is_empty(), "sent a request for an unusable key");
        ensure_eq!(got.as_ref().err(), Some(&http::ResponseStatus::CALL_LINK_INVALID));
        return Ok(());
    }
    ensure_eq!(requests.len(), 1);
    let q = &requests[0];
    ensure_eq!(q.method, http::Method::Put);
    ensure_eq!(q.url, format!("{}/v2/conference/participants", c.url.trim_end_matches('/')));
    ensure_eq!(q.headers, expected_headers(c.key.as_deref(), &c.room, &c.auth, true));
    let mut want_body = json!({"iceUfrag": c.ufrag, "icePwd": c.pwd, "dhePublicKey": hex::encode(&c.dhe), "hkdfExtraInfo": hex::encode(&c.extra)});
    if let Some(p) = &c.passkey {
        want_body["adminPasskey"] = json!(b64.encode(p));
    }
    let sent: Value = serde_json::from_slice(q.body.as_ref().expect("a body")).expect("request body is JSON");
    ensure_eq!(sent, want_body);
    obs.nontrivial_if(c.answer.is_some());

    if c.answer.is_none() {
        ensure_eq!(got.as_ref().err(), Some(&http::ResponseStatus::REQUEST_FAILED));
        return Ok(());
    }
    if !(200..300).contains(&c.status) {
        ensure_eq!(got.as_ref().err().map(|s| s.code), Some(c.status));
        return Ok(());
    }
    match c.answer.as_ref().unwrap() {
        JAnswer::Good(a) => {
            let Ok(g) = got else { fail!("refused a good answer: {:?}", got.as_ref().err()) };
            let addrs = |port: u16| a.ips.iter().map(|ip| SocketAddr::new(*ip, port)).collect::<Vec<_>>();
            ensure_eq!(g.client_demux_id, a.demux);
            ensure_eq!(g.server_udp_addresses, addrs(a.port));
            ensure_eq!(g.server_tcp_addresses, addrs(a.tcp));
            ensure_eq!(g.server_tls_addresses, a.tls.map(addrs).unwrap_or_default());
            ensure_eq!(g.server_hostname, a.hostname);
            ensure_eq!(g.server_ice_ufrag, a.ufrag);
            ensure_eq!(g.server_ice_pwd, a.pwd);
            ensure_eq!(g.server_dhe_pub_key, a.dhe);
            ensure_eq!(g.call_creator, a.creator.as_ref().and_then(|w| w.resolved(c.members)));
            ensure_eq!(g.era_id, a.era);
            // Only an explicit "ACTIVE" may let us in.
            let want = match a.status.as_str() {
                "ACTIVE" => sfu::ClientStatus::Active,
                "BLOCKED" => sfu::ClientStatus::Blocked,
                _ => sfu::ClientStatus::Pending,
            };
            ensure_eq!(g.client_status, want);
            obs.label("joined");
        }
        JAnswer::Damaged(..) => {
            obs.label("damaged answer");
            ensure_eq!(got.as_ref().err(), Some(&http::ResponseStatus::INVALID_RESPONSE_BODY_JSON));
        }
        JAnswer::Raw(_) => {}
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProtoCase {
    key: Option<Vec<u8>>,
    members: u8,
    peek: Peek,
    /// 0: whole; otherwise one required field left out
    omit: u8,
}
fn proto_case(c: &ProtoCase, obs: &mut Obs) -> Res {
    let key = c.key.as_ref().map(|k| CallLinkRootKey::try_from(k.as_slice()).expect("well-formed key"));
    let dev = |d: &[(u32, Who)], omit: bool| {
        d.iter()
            .enumerate()
            .map(|(i, (id, w))| proto::peek_info::PeekDeviceInfo {
                demux_id: if omit && i == 0 { None } else { Some(*id) },
                opaque_user_id: w.text(),
            })
            .collect::<Vec<_>>()
    };
    let name_key = key.unwrap_or_else(|| CallLinkRootKey::try_from((1..17).collect::<Vec<u8>>().as_slice()).unwrap());
    let p = proto::PeekInfo {
        era_id: c.peek.era.clone(),
        max_devices: c.peek.max,
        creator: c.peek.creator.as_ref().and_then(|w| w.text()),
        devices: dev(&c.peek.devices, c.omit == 1),
        pending_devices: dev(&c.peek.pending, c.omit == 2),
        call_link_state: c.peek.link.as_ref().map(|l| proto::peek_info::CallLinkState {
            encrypted_name: (c.omit != 3).then(|| l.name_text(&name_key)),
            restrictions: (c.omit != 4).then_some(l.restrictions as i32 & 1),
            revoked: (c.omit != 5).then_some(l.revoked),
            expiration_unix_timestamp: (c.omit != 6).then_some(l.expiration),
        }),
    };
    let broken = match c.omit {
        1 => !c.peek.devices.is_empty(),
        2 => !c.peek.pending.is_empty(),
        3..=6 => c.peek.link.is_some(),
        _ => false,
    };
    let resolver = ObfuscatedResolver::new(members(c.members), key, None);
    let got = PeekInfo::deobfuscate_proto(p, &resolver);
    obs.label_if(broken, "incomplete");
    if broken {
        ensure!(got.is_err(), "accepted an incomplete description: {got:?}");
        return Ok(());
    }
    obs.nontrivial_if(c.peek.devices.len() + c.peek.pending.len() > 1);
    let mut peek = c.peek.clone();
    if let Some(l) = &mut peek.link {
        l.restrictions &= 1;
    }
    let (want, known) = peek.expected(c.members, key.as_ref());
    if known {
        ensure_eq!(got.as_ref().ok(), Some(&want));
    } else {
        ensure!(got.is_ok());
    }
    // and each member resolves, by text or by bytes
    for i in 0..8u8 {
        let want = (i < c.members).then(|| user(i));
        ensure_eq!(resolver.resolve(&opaque(&member_id(i))), want);
        ensure_eq!(resolver.resolve_bytes(&Sha256::digest(member_id(i))), want);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AuthCase(Vec<u8>);
fn auth_case(c: &AuthCase, obs: &mut Obs) -> Res {
    let got = sfu::auth_header_from_membership_proof(&c.0);
    match std::str::from_utf8(&c.0) {
        Err(_) => ensure_eq!(got, None),
        Ok(t) => {
            obs.nontrivial_if(t.contains(':'));
            let name = &t[..t.find(':').unwrap_or(t.len())];
            ensure_eq!(got, Some(format!("Basic {}", b64.encode(format!("{name}:{t}")))));
        }
    }
    Ok(())
}

fn status() -> impl Strategy<Value = u16> {
    prop_oneof![6 => Just(200u16), 1 => 200..300u16, 4 => Just(404u16), 1 => any::<u16>(), 1 => prop_oneof![Just(413u16), Just(401), Just(199), Just(300), Just(703)]]
}
fn dmg() -> impl Strategy<Value = Damage> {
    prop_oneof![Just(Damage::Remove), any::<u8>().prop_map(Damage::Retype), any::<u16>().prop_map(Damage::Truncate)]
}
fn url() -> &'static str {
    "https://[a-z]{1,8}(\\.org)?(/x)?/{0,2}"
}

pub fn c07(r: &mut Runner) {
    r.facet(
        "peek",
        "peeks with and without call link keys, any status, answers that are absent, well-formed (members, strangers, \
         pending, link state), damaged, junk or a failure reason; non-trivial: a well-formed answer with devices, or a 404",
        par(160_000),
        || {
            let answer = prop_oneof![
                8 => (peek(), any::<bool>()).prop_map(|(p, n)| Answer::Good(p, n)),
                2 => (peek(), dmg()).prop_map(|(p, d)| Answer::Damaged(p, d)),
                1 => proptest::collection::vec(any::<u8>(), 0..30).prop_map(Answer::Raw),
                3 => prop_oneof![Just("expired".to_string()), Just("invalid".to_string()), "[a-z]{0,8}"].prop_map(Answer::Reason),
                1 => Just(Answer::Empty),
            ];
            (
                proptest::option::of(good_key()),
                proptest::option::of("[a-f0-9]{8}"),
                "[ -~]{0,20}",
                url(),
                0..8u8,
                status(),
                proptest::option::weighted(0.95, answer),
            )
                .prop_map(|(key, room, auth, url, members, status, answer)| PeekCase {
                    key,
                    room,
                    auth,
                    url,
                    members,
                    status,
                    answer,
                })
        },
        peek_case,
    );
    r.facet(
        "join",
        "joins with generated credentials, keys and answers; non-trivial: a request went out and was answered",
        par(120_000),
        || {
            let ip = prop_oneof![any::<[u8; 4]>().prop_map(IpAddr::from), any::<[u8; 16]>().prop_map(IpAddr::from)];
            let good = (
                (any::<u32>(), proptest::collection::vec(ip, 0..4), any::<u16>(), any::<u16>(), proptest::option::of(any::<u16>())),
                (proptest::option::of("[a-z.]{0,10}"), "\\PC{0,8}", "\\PC{0,8}", any::<[u8; 32]>()),
                (
                    proptest::option::of(who()),
                    "[a-f0-9]{0,8}",
                    prop_oneof![Just("ACTIVE".to_string()), Just("PENDING".to_string()), Just("BLOCKED".to_string()), "[A-Za-z]{0,7}", Just("active".into())],
                ),
            )
                .prop_map(|((demux, ips, port, tcp, tls), (hostname, ufrag, pwd, dhe), (creator, era, status))| JoinAnswer {
                    demux,
                    ips,
                    port,
                    tcp,
                    tls,
                    hostname,
                    ufrag,
                    pwd,
                    dhe,
                    creator,
                    era,
                    status,
                })
                .boxed();
            let answer = prop_oneof![
                6 => good.clone().prop_map(JAnswer::Good),
                2 => (good, any::<u8>(), dmg()).prop_map(|(a, f, d)| JAnswer::Damaged(a, f, d)),
                1 => proptest::collection::vec(any::<u8>(), 0..30).prop_map(JAnswer::Raw),
            ];
            let bytes = || proptest::collection::vec(any::<u8>(), 0..33);
            (
                (proptest::option::of(good_key()), proptest::option::of("[a-f0-9]{8}"), "[ -~]{0,20}", url(), 0..8u8),
                (proptest::option::of(bytes()), "\\PC{0,8}", "\\PC{0,8}", bytes(), bytes()),
                status(),
                proptest::option::weighted(0.95, answer),
            )
                .prop_map(|((key, room, auth, url, members), (passkey, ufrag, pwd, dhe, extra), status, answer)| JoinCase {
                    key,
                    room,
                    auth,
                    url,
                    members,
                    passkey,
                    ufrag,
                    pwd,
                    dhe,
                    extra,
                    status,
                    answer,
                })
        },
        join_case,
    );
    r.facet(
        "in_call",
        "descriptions of who is in the call pushed by the server, whole or lacking a required field; non-trivial: complete, two devices or more",
        par(120_000),
        || {
            (proptest::option::of(good_key()), 0..8u8, peek(), prop_oneof![4 => Just(0u8), 3 => 1..7u8])
                .prop_map(|(key, members, peek, omit)| ProtoCase { key, members, peek, omit })
        },
        proto_case,
    );
    r.facet(
        "authorization",
        "membership tokens of any bytes; non-trivial: has a user part",
        par(60_000),
        || prop_oneof![2 => "[a-z0-9-]{0,6}(:[a-z0-9:]{0,8})?".prop_map(|s| AuthCase(s.into_bytes())), 1 => proptest::collection::vec(any::<u8>(), 0..12).prop_map(AuthCase)],
        auth_case,
    );
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum HttpOp {
    /// ask; when the answer arrives, ask again this many times from within the callback
    Send { nested: u8 },
    /// answer one of the outstanding requests
    Answer { which: u16, ok: bool },
    /// answer one that was already answered
    Again { which: u16 },
    /// answer something never asked
    Unknown { id: u32 },
    /// the caller goes through a clone of the client from now on
    Clone,
}

#[derive(Default)]
struct Log {
    /// (request id, tag in the url)
    sent: Vec<(u32, u32)>,
}
struct RecDelegate(Arc<Mutex<Log>>);
impl http::Delegate for RecDelegate {
    fn send_request(&self, request_id: u32, request: http::Request) {
        let tag = request.url.parse().unwrap();
        self.0.lock().unwrap().sent.push((request_id, tag));
    }
}

struct HttpWorld {
    client: Mutex<http::DelegatingClient>,
    answered: Mutex<Vec<(u32, Option<(u16, Vec<u8>)>)>>,
    next_tag: Mutex<u32>,
}
fn ask(w: &Arc<HttpWorld>, nested: u8) {
    let tag = {
        let mut t = w.next_tag.lock().unwrap();
        *t += 1;
        *t
    };
    let w2 = w.clone();
    let client = w.client.lock().unwrap().clone();
    client.send_request(
        http::Request { method: http::Method::Get, url: tag.to_string(), headers: Default::default(), body: None },
        Box::new(move |r| {
            w2.answered.lock().unwrap().push((tag, r.map(|r| (r.status.code, r.body))));
            for _ in 0..nested {
                ask(&w2, 0);
            }
        }),
    );
}

fn http_case(ops: &Vec<HttpOp>, obs: &mut Obs) -> Res {
    let log = Arc::new(Mutex::new(Log::default()));
    let w = Arc::new(HttpWorld {
        client: Mutex::new(http::DelegatingClient::new(RecDelegate(log.clone()))),
        answered: Default::default(),
        next_tag: Default::default(),
    });
    let mut open: Vec<(u32, u32, u8)> = vec![];
    let mut done: Vec<(u32, u32)> = vec![];
    let mut seen = 0;
    let mut want: Vec<(u32, Option<(u16, Vec<u8>)>)> = vec![];
    let mut used = HashSet::new();
    let mut out_of_order = false;
    // requests as they reach the app, in order
    let drain = |seen: &mut usize, open: &mut Vec<(u32, u32, u8)>, used: &mut HashSet<u32>, nested: u8, expect: usize| -> Res {
        let l = log.lock().unwrap();
        ensure_eq!(l.sent.len() - *seen, expect, "every request reaches the app once");
        for (id, tag) in &l.sent[*seen..] {
            ensure!(used.insert(*id), "request id {id} used twice");
            open.push((*id, *tag, nested));
        }
        *seen = l.sent.len();
        Ok(())
    };
    for op in ops {
        let client = w.client.lock().unwrap().clone();
        match op {
            HttpOp::Send { nested } => {
                ask(&w, *nested);
                drain(&mut seen, &mut open, &mut used, *nested, 1)?;
            }
            HttpOp::Answer { which, ok } if !open.is_empty() => {
                let i = *which as usize % open.len();
                out_of_order |= i > 0;
                let (id, tag, nested) = open.remove(i);
                let body = tag.to_be_bytes().to_vec();
                let response = ok.then(|| http::Response { status: (200 + i as u16 % 300).into(), body: body.clone() });
                want.push((tag, response.as_ref().map(|r| (r.status.code, body))));
                client.received_response(id, response);
                done.push((id, tag));
                drain(&mut seen, &mut open, &mut used, 0, nested as usize)?;
            }
            HttpOp::Again { which } if !done.is_empty() => {
                let (id, _) = done[*which as usize % done.len()];
                client.received_response(id, Some(http::Response { status: 200.into(), body: vec![9] }));
                obs.label("answered twice");
                drain(&mut seen, &mut open, &mut used, 0, 0)?;
            }
            HttpOp::Unknown { id } => {
                if !used.contains(id) {
                    client.received_response(*id, None);
                    obs.label("unknown answer");
                }
            }
            HttpOp::Clone => {
                *w.client.lock().unwrap() = client.clone();
            }
            _ => {}
        }
        ensure_eq!(*w.answered.lock().unwrap(), want, "after {op:?}");
    }
    obs.nontrivial_if(out_of_order && want.len() > 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StatusCase(u16);
fn status_case(c: &StatusCase, obs: &mut Obs) -> Res {
    let s = http::ResponseStatus::from(c.0);
    ensure_eq!(s.is_success(), (200..300).contains(&c.0));
    ensure_eq!(s.is_error(), (400..800).contains(&c.0));
    ensure_eq!(s.to_string(), c.0.to_string());
    obs.nontrivial_if(c.0 < 1000);
    Ok(())
}

pub fn c08(r: &mut Runner) {
    r.facet(
        "multiplexing",
        "histories of requests (also sent from within answers), answers in any order, missing, repeated and unknown; \
         non-trivial: at least three answered, some out of order",
        par(120_000),
        || {
            proptest::collection::vec(
                prop_oneof![
                    5 => (0..3u8).prop_map(|nested| HttpOp::Send { nested }),
                    6 => (any::<u16>(), proptest::bool::weighted(0.8)).prop_map(|(which, ok)| HttpOp::Answer { which, ok }),
                    1 => any::<u16>().prop_map(|which| HttpOp::Again { which }),
                    1 => prop_oneof![any::<u32>(), 0..40u32].prop_map(|id| HttpOp::Unknown { id }),
                    1 => Just(HttpOp::Clone),
                ],
                1..40,
            )
        },
        http_case,
    );
    r.facet(
        "status_classes",
        "every 16-bit status; non-trivial: below 1000",
        par(60_000),
        || prop_oneof![any::<u16>(), 0..1000u16].prop_map(StatusCase),
        status_case,
    );
}
