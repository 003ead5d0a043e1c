//! C05: call link root keys. C06: call link requests and responses.
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
    time::{Duration, SystemTime},
};

use base64::{Engine, engine::general_purpose::STANDARD as b64};
use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par};
use hkdf::Hkdf;
use proptest::prelude::*;
use ringrtc::lite::{
    call_links::{
        self, CallLinkDeleteRequest, CallLinkMemberResolver, CallLinkRestrictions, CallLinkRootKey,
        CallLinkState, CallLinkUpdateRequest,
    },
    http,
    sfu::MemberResolver,
};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use sha2::Sha256;

// ------------------------------------------------------------------ reference model

const ALPHABET: &[u8; 16] = b"bcdfghkmnpqrstxz";

fn enc16(bytes: &[u8]) -> String {
    bytes
        .iter()
        .flat_map(|b| [ALPHABET[(b >> 4) as usize] as char, ALPHABET[(b & 15) as usize] as char])
        .collect()
}

/// The string form a user sees.
fn reference_format(bytes: &[u8]) -> String {
    let groups: Vec<&[u8]> = if bytes.len() == 16 {
        bytes.chunks(2).collect()
    } else {
        bytes[..16].chunks(4).chain([&bytes[16..17], &bytes[17..21]]).collect()
    };
    groups.into_iter().map(enc16).collect::<Vec<_>>().join("-")
}

/// Keys whose even-aligned byte pairs repeat one hex digit four times "don't look random".
fn looks_repetitive(crn: &[u8]) -> bool {
    crn.chunks(2).any(|p| p[0] == p[1] && p[0] >> 4 == p[0] & 15)
}

fn reference_accepts(bytes: &[u8]) -> bool {
    match bytes.len() {
        16 => !looks_repetitive(bytes),
        21 => bytes[16] & 0x7f == 1 && !looks_repetitive(&bytes[..16]),
        _ => false,
    }
}

pub fn reference_valid(bytes: &[u8]) -> bool {
    bytes.len() == 16 || bytes[16] & 0x80 == 0
}

pub fn reference_room_id(bytes: &[u8]) -> Vec<u8> {
    let mut out = vec![0; 32];
    Hkdf::<Sha256>::new(None, &bytes[..16])
        .expand(b"20230501-Signal-CallLinkRootKey-RoomId", &mut out)
        .unwrap();
    out
}

/// 16 bytes, sometimes with a repetitive pair.
fn crn() -> impl Strategy<Value = Vec<u8>> {
    (
        proptest::collection::vec(any::<u8>(), 16),
        proptest::option::weighted(0.2, (0..15usize, 0..16u8)),
    )
        .prop_map(|(mut v, rep)| {
            if let Some((at, d)) = rep {
                v[at] = d * 0x11;
                v[at + 1] = d * 0x11;
            }
            v
        })
}

fn key_bytes() -> impl Strategy<Value = Vec<u8>> {
    let ver = prop_oneof![6 => Just(1u8), 4 => Just(0x81u8), 1 => any::<u8>()];
    prop_oneof![
        4 => crn(),
        6 => (crn(), ver, any::<u32>()).prop_map(|(mut c, v, e)| {
            c.push(v);
            c.extend(e.to_be_bytes());
            c
        }),
    ]
}

/// Bytes that always are an acceptable key.
pub fn good_key() -> impl Strategy<Value = Vec<u8>> {
    key_bytes().prop_map(|mut v| {
        for i in (0..16).step_by(2) {
            if looks_repetitive(&v[i..i + 2]) {
                v[i + 1] ^= 0x10;
            }
        }
        if v.len() == 21 {
            v[16] = if v[16] & 0x80 != 0 { 0x81 } else { 1 };
        }
        v
    })
}

pub struct BytesRng(pub Vec<u8>, pub usize);
impl rand::RngCore for BytesRng {
    fn next_u32(&mut self) -> u32 {
        rand_core_u64(self) as u32
    }
    fn next_u64(&mut self) -> u64 {
        rand_core_u64(self)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = if self.1 < self.0.len() {
                self.0[self.1]
            } else {
                (self.1 as u64).wrapping_mul(0x9E3779B97F4A7C15).to_be_bytes()[2]
            };
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for BytesRng {}
fn rand_core_u64(r: &mut BytesRng) -> u64 {
    let mut b = [0; 8];
    rand::RngCore::fill_bytes(r, &mut b);
    u64::from_le_bytes(b)
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase {
    bytes: Vec<u8>,
    extra: Vec<u8>,
    cut: Option<u8>,
}

fn key_bytes_case(c: &KeyCase, obs: &mut Obs) -> Res {
    let mut bytes = c.bytes.clone();
    if let Some(n) = c.cut {
        bytes.truncate(n as usize);
    }
    bytes.extend(&c.extra);
    let parsed = CallLinkRootKey::try_from(bytes.as_slice());
    ensure_eq!(parsed.is_ok(), reference_accepts(&bytes), "acceptance of {}", hex::encode(&bytes));
    let Ok(key) = parsed else {
        obs.label("rejected");
        return Ok(());
    };
    obs.nontrivial();
    obs.label(if bytes.len() == 16 { "v0" } else if key.is_valid() { "v1" } else { "v1 without epoch" });
    ensure_eq!(key.as_slice(), bytes.as_slice());
    ensure_eq!(key.is_valid(), reference_valid(&bytes));
    let s = key.to_formatted_string();
    ensure_eq!(s, reference_format(&bytes));
    match CallLinkRootKey::try_from(s.as_str()) {
        Ok(k) => {
            ensure_eq!(k.as_slice(), bytes.as_slice(), "parsed back from {s}");
            ensure!(k == key);
        }
        Err(e) => fail!("its own formatted string {s} does not parse: {e}"),
    }
    ensure_eq!(key.derive_room_id(), reference_room_id(&bytes));
    let mut headers = HashMap::new();
    key.prepare_http_headers(&mut headers);
    let mut expect = HashMap::from([("X-Room-Id".to_string(), hex::encode(reference_room_id(&bytes)))]);
    if bytes.len() == 21 && reference_valid(&bytes) {
        let epoch = u32::from_be_bytes(bytes[17..21].try_into().unwrap());
        expect.insert("X-Epoch".to_string(), epoch.to_string());
    }
    ensure_eq!(headers, expect);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Replace(u16, char),
    Insert(u16, char),
    Delete(u16),
    Append(String),
    Upper,
    NoDashes,
    Truncate(u16),
    SwapAdjacent(u16),
    Regroup(u8),
}

fn text_case(c: &(Vec<u8>, Vec<Edit>), obs: &mut Obs) -> Res {
    let mut s: Vec<char> = reference_format(&c.0).chars().collect();
    for e in &c.1 {
        let at = |n: u16, len: usize| if len == 0 { 0 } else { n as usize % len };
        match e {
            Edit::Replace(n, ch) if !s.is_empty() => {
                let i = at(*n, s.len());
                s[i] = *ch;
            }
            Edit::Insert(n, ch) => s.insert(at(*n, s.len() + 1), *ch),
            Edit::Delete(n) if !s.is_empty() => {
                s.remove(at(*n, s.len()));
            }
            Edit::Append(t) => s.extend(t.chars()),
            Edit::Upper => s = s.iter().flat_map(|c| c.to_uppercase()).collect(),
            Edit::NoDashes => s.retain(|c| *c != '-'),
            Edit::Truncate(n) => s.truncate(at(*n, s.len() + 1)),
            Edit::SwapAdjacent(n) if s.len() > 1 => {
                let i = at(*n, s.len() - 1);
                s.swap(i, i + 1);
            }
            Edit::Regroup(n) => {
                let n = (*n as usize % 6 + 1) * 2;
                let plain: Vec<char> = s.iter().copied().filter(|c| *c != '-').collect();
                s = plain.chunks(n).map(|c| c.iter().collect::<String>()).collect::<Vec<_>>().join("-").chars().collect();
            }
            _ => {}
        }
    }
    let text: String = s.into_iter().collect();
    obs.nontrivial_if(!c.1.is_empty());
    match CallLinkRootKey::try_from(text.as_str()) {
        Ok(k) => {
            obs.label("accepted");
            ensure!(reference_accepts(k.as_slice()), "parsed into an unacceptable key");
            ensure_eq!(k.to_formatted_string(), text, "accepted a string that is no key's formatted form");
        }
        Err(_) => {
            obs.label("rejected");
            // completeness: the canonical form of an acceptable key is never refused
            let plain: String = text.chars().filter(|c| *c != '-').collect();
            if plain.bytes().all(|b| ALPHABET.contains(&b)) && plain.len() % 2 == 0 {
                let idx = |b: u8| ALPHABET.iter().position(|a| *a == b).unwrap() as u8;
                let bytes: Vec<u8> = plain.as_bytes().chunks(2).map(|p| idx(p[0]) << 4 | idx(p[1])).collect();
                ensure!(
                    !(reference_accepts(&bytes) && reference_format(&bytes) == text),
                    "refused the canonical string {text}"
                );
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SealCase {
    key: Vec<u8>,
    other: Vec<u8>,
    plain: Vec<u8>,
    nonce: Vec<u8>,
    flip: u32,
    cut: u16,
    junk: Vec<u8>,
}

fn seal_case(c: &SealCase, obs: &mut Obs) -> Res {
    let key = CallLinkRootKey::try_from(c.key.as_slice()).map_err(|e| harness::Fail::from(e.to_string()))?;
    let other = CallLinkRootKey::try_from(c.other.as_slice()).map_err(|e| harness::Fail::from(e.to_string()))?;
    let sealed = key.encrypt(&c.plain, BytesRng(c.nonce.clone(), 0));
    obs.nontrivial_if(!c.plain.is_empty());
    obs.label_if(c.plain.contains(&0x80), "plaintext holds the padding marker");
    match key.decrypt(&sealed) {
        Ok(p) => ensure_eq!(p, c.plain),
        Err(_) => fail!("cannot decrypt what it encrypted"),
    }
    // The length reveals the size only up to a padding block.
    ensure_eq!((sealed.len() - 16) % 32, 0, "not padded");
    ensure!(sealed.len() >= 12 + c.plain.len() + 1 + 16 && sealed.len() <= 12 + c.plain.len() + 1 + 16 + 31);
    // The epoch takes no part: a key keeps reading its name when the server assigns an epoch.
    if c.key.len() == 21 {
        let mut k2 = c.key.clone();
        k2[16] = 1;
        k2[17..].copy_from_slice(&[9, 8, 7, 6]);
        let k2 = CallLinkRootKey::try_from(k2.as_slice()).unwrap();
        ensure!(k2.decrypt(&sealed).is_ok_and(|p| p == c.plain), "name unreadable after the epoch was assigned");
    }
    if c.key[..16] != c.other[..16] || c.key.len() != c.other.len() {
        ensure!(other.decrypt(&sealed).is_err(), "another key decrypts");
    }
    let mut bad = sealed.clone();
    let i = c.flip as usize % (bad.len() * 8);
    bad[i / 8] ^= 1 << (i % 8);
    ensure!(key.decrypt(&bad).is_err(), "flipping bit {i} went unnoticed");
    let cut = c.cut as usize % sealed.len();
    ensure!(key.decrypt(&sealed[..cut]).is_err(), "truncation to {cut} went unnoticed");
    ensure!(key.decrypt(&c.junk).is_err(), "junk decrypts");
    // A different nonce gives a different ciphertext.
    let mut n2 = c.nonce.clone();
    n2[0] ^= 1;
    ensure!(key.encrypt(&c.plain, BytesRng(n2, 0)) != sealed, "not salted");
    Ok(())
}

fn generate_case(c: &(Vec<u8>, Vec<u8>), obs: &mut Obs) -> Res {
    let mut stream = c.0.clone();
    stream.extend(&c.1);
    let k = CallLinkRootKey::generate(BytesRng(stream, 0));
    obs.nontrivial_if(looks_repetitive(&c.0));
    obs.label_if(looks_repetitive(&c.0), "first draw unusable");
    ensure!(!looks_repetitive(&k.as_slice()[..16]), "generated a repetitive key");
    ensure!(!k.is_valid(), "a new key has no epoch yet, so it must not be usable");
    let back = CallLinkRootKey::try_from(k.as_slice());
    ensure!(back.is_ok_and(|b| b == k), "generated key does not parse");
    let s = k.to_formatted_string();
    ensure!(CallLinkRootKey::try_from(s.as_str()).is_ok_and(|b| b == k), "{s}");
    ensure_eq!(CallLinkRootKey::generate_admin_passkey(BytesRng(c.0.clone(), 0)), c.0);
    Ok(())
}

pub fn c05(r: &mut Runner) {
    r.facet(
        "bytes",
        "16- or 21-byte keys (both versions, with and without epoch, 20% with a repetitive pair, odd version bytes), some \
         truncated or extended; non-trivial: accepted as a key",
        par(200_000),
        || {
            (
                key_bytes(),
                prop_oneof![8 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 1..8)],
                proptest::option::weighted(0.1, 0..22u8),
            )
                .prop_map(|(bytes, extra, cut)| KeyCase { bytes, extra, cut })
        },
        key_bytes_case,
    );
    r.facet(
        "text",
        "the formatted string of a good key after 0..3 edits (characters replaced, inserted, deleted, swapped, text \
         appended, upper-cased, regrouped); non-trivial: at least one edit",
        par(200_000),
        || {
            let ch = prop_oneof![
                6 => proptest::sample::select("bcdfghkmnpqrstxz".chars().collect::<Vec<_>>()),
                3 => Just('-'),
                1 => proptest::sample::select("aeB0 _é\u{80}\u{7ff}😀\0".chars().collect::<Vec<_>>()),
            ];
            let edit = prop_oneof![
                3 => (any::<u16>(), ch.clone()).prop_map(|(n, c)| Edit::Replace(n, c)),
                2 => (any::<u16>(), ch).prop_map(|(n, c)| Edit::Insert(n, c)),
                2 => any::<u16>().prop_map(Edit::Delete),
                2 => "[-bcdfgz]{1,6}|-.{0,3}".prop_map(Edit::Append),
                1 => Just(Edit::Upper),
                1 => Just(Edit::NoDashes),
                1 => any::<u16>().prop_map(Edit::Truncate),
                1 => any::<u16>().prop_map(Edit::SwapAdjacent),
                1 => any::<u8>().prop_map(Edit::Regroup),
            ];
            (good_key(), proptest::collection::vec(edit, 0..3))
        },
        text_case,
    );
    r.facet(
        "names",
        "encrypting and decrypting 0..140 byte names under both key versions, bit flips, truncations, other keys and junk; \
         non-trivial: non-empty name",
        par(60_000),
        || {
            let byte = prop_oneof![3 => any::<u8>(), 1 => Just(0x80u8), 1 => Just(0u8)];
            (
                good_key(),
                good_key(),
                proptest::collection::vec(byte, 0..140),
                proptest::collection::vec(any::<u8>(), 12),
                any::<u32>(),
                any::<u16>(),
                proptest::collection::vec(any::<u8>(), 0..60),
            )
                .prop_map(|(key, other, plain, nonce, flip, cut, junk)| SealCase {
                    key,
                    other,
                    plain,
                    nonce,
                    flip,
                    cut,
                    junk,
                })
        },
        seal_case,
    );
    r.facet(
        "generate",
        "key generation from a generated random stream whose first draw has a repetitive pair in 20% of the cases; \
         non-trivial: the first draw is unusable",
        par(40_000),
        || (crn(), crn()),
        generate_case,
    );
}

// ------------------------------------------------------------------ C06

/// An HTTP client that records the request and answers as told, possibly never.
pub struct FakeHttp {
    pub requests: Mutex<Vec<http::Request>>,
    pub answer: Option<Option<http::Response>>,
}
impl http::Client for FakeHttp {
    fn send_request(&self, request: http::Request, callback: http::ResponseCallback) {
        self.requests.lock().unwrap().push(request);
        if let Some(a) = &self.answer {
            callback(a.clone());
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Answer {
    pub status: u16,
    pub body: Body,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    /// a well-formed call link
    Link {
        name: Option<String>,
        sealed: bool,
        restrictions: String,
        revoked: bool,
        expiration: u64,
        epoch: Option<u32>,
        extra: bool,
    },
    /// the above with one field removed or replaced
    Broken(u8, u8),
    Raw(Vec<u8>),
    EmptyObject,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Verb {
    Create(Option<bool>),
    Read,
    Update { name: Option<Vec<u8>>, restrictions: Option<bool>, revoked: Option<bool> },
    Delete,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinkCase {
    key: Vec<u8>,
    verb: Verb,
    url: String,
    auth: Vec<u8>,
    passkey: Vec<u8>,
    zk: Vec<u8>,
    answer: Option<Answer>,
}

fn restr(b: bool) -> CallLinkRestrictions {
    if b { CallLinkRestrictions::AdminApproval } else { CallLinkRestrictions::None }
}
fn restr_name(b: bool) -> &'static str {
    if b { "adminApproval" } else { "none" }
}

pub fn answer() -> impl Strategy<Value = Answer> {
    let status = prop_oneof![6 => Just(200u16), 1 => 200..300u16, 2 => any::<u16>(), 2 => prop_oneof![Just(404u16), Just(401), Just(413), Just(503)]];
    let exp = prop_oneof![
        5 => 0..4_000_000_000u64,
        1 => Just(u64::MAX),
        1 => Just(i64::MAX as u64),
        1 => any::<u64>(),
    ];
    let link = (
        proptest::option::weighted(0.8, "\\PC{0,40}"),
        proptest::bool::weighted(0.8),
        prop_oneof![Just("none".to_string()), Just("adminApproval".to_string()), Just("somethingNew".to_string())],
        any::<bool>(),
        exp,
        proptest::option::of(any::<u32>()),
        any::<bool>(),
    )
        .prop_map(|(name, sealed, restrictions, revoked, expiration, epoch, extra)| Body::Link {
            name,
            sealed,
            restrictions,
            revoked,
            expiration,
            epoch,
            extra,
        });
    let body = prop_oneof![
        8 => link,
        2 => (0..5u8, 0..5u8).prop_map(|(a, b)| Body::Broken(a, b)),
        1 => proptest::collection::vec(any::<u8>(), 0..30).prop_map(Body::Raw),
        1 => Just(Body::EmptyObject),
    ];
    (status, body).prop_map(|(status, body)| Answer { status, body })
}

/// JSON text of a response body, under the key that should be able to read the name.
fn render(body: &Body, key: &CallLinkRootKey) -> Vec<u8> {
    match body {
        Body::Link { name, sealed, restrictions, revoked, expiration, epoch, extra } => {
            let name = match name {
                None => String::new(),
                Some(n) if *sealed => b64.encode(key.encrypt(n.as_bytes(), BytesRng(vec![], 7))),
                Some(n) => b64.encode(n.as_bytes()),
            };
            let mut v = json!({"name": name, "restrictions": restrictions, "revoked": revoked, "expiration": expiration});
            if let Some(e) = epoch {
                v["epoch"] = json!(e);
            }
            if *extra {
                v["future"] = json!({"a": [1, 2, 3]});
            }
            serde_json::to_vec(&v).unwrap()
        }
        Body::Broken(field, how) => {
            let mut v = json!({"name": "", "restrictions": "none", "revoked": false, "expiration": 5, "epoch": 3});
            let f = ["name", "restrictions", "revoked", "expiration", "epoch"][*field as usize];
            match how {
                0 => {
                    v.as_object_mut().unwrap().remove(f);
                }
                1 => v[f] = json!([1]),
                2 => v[f] = json!(-1),
                3 => v[f] = json!(1.5),
                _ => v[f] = json!({}),
            }
            serde_json::to_vec(&v).unwrap()
        }
        Body::Raw(b) => b.clone(),
        Body::EmptyObject => b"{}".to_vec(),
    }
}

/// What the caller must be told for `answer`; None where the body may or may not parse.
fn expected_state(
    answer: &Option<http::Response>,
    body: &Body,
    key: &CallLinkRootKey,
) -> Option<Result<CallLinkState, http::ResponseStatus>> {
    let Some(a) = answer else { return Some(Err(http::ResponseStatus::REQUEST_FAILED)) };
    if !(200..300).contains(&a.status.code) {
        return Some(Err(a.status));
    }
    match body {
        Body::Link { name, sealed, restrictions, revoked, expiration, .. } => {
            let expiration = SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(*expiration))?;
            Some(Ok(CallLinkState {
                name: if *sealed { name.clone().unwrap_or_default() } else { String::new() },
                restrictions: match restrictions.as_str() {
                    "none" => CallLinkRestrictions::None,
                    "adminApproval" => CallLinkRestrictions::AdminApproval,
                    _ => CallLinkRestrictions::Unknown,
                },
                revoked: *revoked,
                expiration,
                root_key: *key,
            }))
        }
        Body::Broken(4, 0) => None, // the epoch is optional
        Body::Broken(..) | Body::EmptyObject => Some(Err(http::ResponseStatus::INVALID_RESPONSE_BODY_JSON)),
        Body::Raw(_) => None,
    }
}

fn link_case(c: &LinkCase, obs: &mut Obs) -> Res {
    let key = CallLinkRootKey::try_from(c.key.as_slice()).map_err(|e| harness::Fail::from(e.to_string()))?;
    // The key the caller ends up with.
    let result_key = match (&c.verb, c.answer.as_ref().map(|a| &a.body)) {
        (Verb::Create(_), Some(Body::Link { epoch, .. })) if c.key.len() == 21 => match epoch {
            None => CallLinkRootKey::try_from(&c.key[..16]).unwrap(),
            Some(e) => {
                let mut b = c.key[..16].to_vec();
                b.push(1);
                b.extend(e.to_be_bytes());
                CallLinkRootKey::try_from(b.as_slice()).unwrap()
            }
        },
        _ => key,
    };
    let response = c.answer.as_ref().map(|a| http::Response {
        status: http::ResponseStatus::from(a.status),
        body: render(&a.body, &result_key),
    });
    let client = FakeHttp { requests: Default::default(), answer: Some(response.clone()) };
    let results: Arc<Mutex<Vec<Result<Option<CallLinkState>, http::ResponseStatus>>>> = Default::default();
    let sink = results.clone();
    let state_cb = Box::new(move |r: Result<CallLinkState, http::ResponseStatus>| {
        sink.lock().unwrap().push(r.map(Some));
    });
    let sink = results.clone();
    let mut expect_body: Option<Value> = None;
    let (method, create) = match &c.verb {
        Verb::Create(r) => {
            call_links::create_call_link(&client, &c.url, key, &c.auth, &c.passkey, &c.zk, r.map(restr), state_cb);
            let mut v = json!({"adminPasskey": b64.encode(&c.passkey), "zkparams": b64.encode(&c.zk)});
            if let Some(r) = r {
                v["restrictions"] = json!(restr_name(*r));
            }
            expect_body = Some(v);
            (http::Method::Put, true)
        }
        Verb::Read => {
            call_links::read_call_link(&client, &c.url, key, &c.auth, state_cb);
            (http::Method::Get, false)
        }
        Verb::Update { name, restrictions, revoked } => {
            call_links::update_call_link(
                &client,
                &c.url,
                key,
                &c.auth,
                &CallLinkUpdateRequest {
                    admin_passkey: &c.passkey,
                    encrypted_name: name.as_deref(),
                    restrictions: restrictions.map(restr),
                    revoked: *revoked,
                },
                state_cb,
            );
            let mut v = json!({"adminPasskey": b64.encode(&c.passkey)});
            if let Some(n) = name {
                v["name"] = json!(b64.encode(n));
            }
            if let Some(r) = restrictions {
                v["restrictions"] = json!(restr_name(*r));
            }
            if let Some(r) = revoked {
                v["revoked"] = json!(r);
            }
            expect_body = Some(v);
            (http::Method::Put, false)
        }
        Verb::Delete => {
            call_links::delete_call_link(
                &client,
                &c.url,
                key,
                &c.auth,
                &CallLinkDeleteRequest { admin_passkey: &c.passkey },
                Box::new(move |r| sink.lock().unwrap().push(r.map(|_| None))),
            );
            expect_body = Some(json!({"adminPasskey": b64.encode(&c.passkey)}));
            (http::Method::Delete, false)
        }
    };
    let results = std::mem::take(&mut *results.lock().unwrap());
    ensure_eq!(results.len(), 1, "the caller must get exactly one result");
    let requests = client.requests.into_inner().unwrap();
    // A key without an epoch may only be used to create; a complete one may not be created again.
    let valid = reference_valid(&c.key);
    if valid == create {
        ensure!(requests.is_empty(), "sent a request for a key in the wrong state");
        let want = if create { http::ResponseStatus::CALL_LINK_ALREADY_CREATED } else { http::ResponseStatus::CALL_LINK_INVALID };
        ensure_eq!(results[0].as_ref().err(), Some(&want));
        obs.label("key in the wrong state");
        return Ok(());
    }
    obs.nontrivial();
    ensure_eq!(requests.len(), 1);
    let q = &requests[0];
    ensure_eq!(q.method, method);
    ensure_eq!(q.url, format!("{}/v1/call-link", c.url.trim_end_matches('/')));
    let mut headers = HashMap::from([
        ("Authorization".to_string(), format!("Bearer {}.{}", if create { "create" } else { "auth" }, b64.encode(&c.auth))),
        ("Content-Type".to_string(), "application/json".to_string()),
        ("X-Room-Id".to_string(), hex::encode(reference_room_id(&c.key))),
    ]);
    if c.key.len() == 21 && valid {
        headers.insert("X-Epoch".to_string(), u32::from_be_bytes(c.key[17..].try_into().unwrap()).to_string());
    }
    ensure_eq!(q.headers, headers);
    let got_body = q.body.as_ref().map(|b| serde_json::from_slice::<Value>(b).expect("request body is JSON"));
    ensure_eq!(got_body, expect_body);
    // and the answer
    if let Verb::Delete = c.verb {
        match &response {
            None => ensure_eq!(results[0].as_ref().err(), Some(&http::ResponseStatus::REQUEST_FAILED)),
            Some(a) if !(200..300).contains(&a.status.code) => ensure_eq!(results[0].as_ref().err(), Some(&a.status)),
            Some(_) if matches!(c.answer.as_ref().unwrap().body, Body::EmptyObject | Body::Link { .. }) => {
                ensure!(results[0].is_ok())
            }
            _ => {}
        }
        return Ok(());
    }
    let body = c.answer.as_ref().map_or(&Body::EmptyObject, |a| &a.body);
    if let Body::Link { expiration, .. } = body {
        obs.label_if(*expiration > i64::MAX as u64, "expiration beyond representable time");
    }
    if let Some(want) = expected_state(&response, body, &result_key) {
        match (&results[0], &want) {
            (Ok(Some(got)), Ok(want)) => {
                ensure_eq!(got, want);
                obs.label("state returned");
                if create {
                    ensure!(got.root_key.is_valid(), "created, but the key is still unusable");
                    ensure_eq!(got.root_key.derive_room_id(), key.derive_room_id(), "the room changed on creation");
                }
            }
            (Err(got), Err(want)) => ensure_eq!(got, want),
            (got, want) => fail!("got {got:?}, want {want:?}"),
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ResolveCase {
    key: Vec<u8>,
    other: Vec<u8>,
    /// which user is asked for, and how: 0 hex, 1 bytes, 2 upper-case hex, 3 under another key, 4 junk, 5 corrupted
    asks: Vec<(u8, u8)>,
}

fn resolve_case(c: &ResolveCase, obs: &mut Obs) -> Res {
    use zkgroup::call_links::CallLinkSecretParams;
    let key = CallLinkRootKey::try_from(c.key.as_slice()).map_err(|e| harness::Fail::from(e.to_string()))?;
    let resolver = CallLinkMemberResolver::from(&key);
    let mine = CallLinkSecretParams::derive_from_root_key(&c.key);
    let theirs = CallLinkSecretParams::derive_from_root_key(&c.other);
    let distinct: std::collections::HashSet<u8> = c.asks.iter().map(|a| a.0).collect();
    obs.nontrivial_if(c.asks.len() > 20);
    obs.label_if(distinct.len() > 17, "more users than the cache holds");
    for (user, how) in &c.asks {
        let aci = libsignal_core::Aci::from_uuid_bytes([*user; 16]);
        let want = Some(aci.service_id_binary());
        let ct = zkgroup::serialize(&mine.encrypt_uid(aci));
        match how {
            0 => ensure_eq!(resolver.resolve(&hex::encode(&ct)), want, "user {user}"),
            1 => ensure_eq!(resolver.resolve_bytes(&ct), want, "user {user}"),
            2 => {
                if let Some(u) = resolver.resolve(&hex::encode_upper(&ct)) {
                    ensure_eq!(Some(u), want);
                }
            }
            3 => {
                if c.key[..16] != c.other[..16] {
                    let ct = zkgroup::serialize(&theirs.encrypt_uid(aci));
                    ensure_eq!(resolver.resolve_bytes(&ct), None, "resolved a member of another call");
                    ensure_eq!(resolver.resolve(&hex::encode(&ct)), None);
                }
            }
            4 => {
                ensure_eq!(resolver.resolve("zz"), None);
                ensure_eq!(resolver.resolve(""), None);
                ensure_eq!(resolver.resolve_bytes(&ct[..ct.len() - 1]), None);
                ensure_eq!(resolver.resolve_bytes(&[]), None);
            }
            _ => {
                let mut bad = ct.clone();
                bad[1 + *user as usize % 64] ^= 0x40;
                ensure_eq!(resolver.resolve_bytes(&bad), None, "resolved a corrupted id");
                ensure_eq!(resolver.resolve(&hex::encode(&bad)), None, "resolved a corrupted id");
            }
        }
    }
    Ok(())
}

pub fn c06(r: &mut Runner) {
    r.facet(
        "requests",
        "create / read / update / delete with keys of both versions and states, generated parameters, and answers that are \
         absent, errors, well-formed links (any expiration), damaged JSON or junk; non-trivial: a request was sent",
        par(240_000),
        || {
            let verb = prop_oneof![
                3 => proptest::option::of(any::<bool>()).prop_map(Verb::Create),
                2 => Just(Verb::Read),
                3 => (
                    proptest::option::of(proptest::collection::vec(any::<u8>(), 0..50)),
                    proptest::option::of(any::<bool>()),
                    proptest::option::of(any::<bool>())
                )
                    .prop_map(|(name, restrictions, revoked)| Verb::Update { name, restrictions, revoked }),
                1 => Just(Verb::Delete),
            ];
            (
                good_key(),
                verb,
                "https://[a-z]{1,8}(\\.org)?(/x)?/{0,2}",
                proptest::collection::vec(any::<u8>(), 0..40),
                proptest::collection::vec(any::<u8>(), 0..20),
                proptest::collection::vec(any::<u8>(), 0..40),
                proptest::option::weighted(0.93, answer()),
            )
                .prop_map(|(key, verb, url, auth, passkey, zk, answer)| LinkCase {
                    key,
                    verb,
                    url,
                    auth,
                    passkey,
                    zk,
                    answer,
                })
        },
        link_case,
    );
    r.facet(
        "members",
        "1..60 lookups of up to 40 users through one resolver, as hex or bytes, under the right key or another, corrupted \
         or junk; non-trivial: more than 20 lookups (the caches hold 17)",
        par(200_000),
        || {
            (
                good_key(),
                good_key(),
                proptest::collection::vec((prop_oneof![1 => 0..40u8, 1 => 0..6u8], 0..6u8), 1..60),
            )
                .prop_map(|(key, other, asks)| ResolveCase { key, other, asks })
        },
        resolve_case,
    );
}
