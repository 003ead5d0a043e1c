//! C09 endorsements, C10 assets, C11 actors and event streams, C12 redaction.
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    net::{Ipv4Addr, Ipv6Addr},
    sync::{Arc, Mutex, mpsc},
    time::{Duration, Instant, SystemTime},
};

use harness::{Fail, Obs, Res, Runner, ensure, ensure_eq, fail, par};
use libsignal_core::Aci;
use proptest::prelude::*;
use ringrtc::{
    common::{
        SemanticVersion,
        actor::{Actor, Stopper},
    },
    core::{
        assets::{AssetError, AssetHandle, AssetManager, AssetManifestEntry},
        endorsements::EndorsementsCache,
        util::{EventStream, redact_string},
    },
    protobuf::assets::AssetMetadata,
};
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha512};
use zkgroup::{
    ServerSecretParams, Timestamp,
    call_links::CallLinkSecretParams,
    groups::{GroupSendDerivedKeyPair, GroupSendEndorsement, GroupSendEndorsementsResponse},
};

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum EOp {
    Insert { epoch: u8, users: Vec<u8>, issuer: u8 },
    Invalid(Option<u8>),
    Clear { at: u8, just_before: bool },
    Share,
    Token { epoch: u8, users: Vec<u8> },
    ForUsers { epoch: Option<u8>, users: Vec<u8> },
}

fn epoch(e: u8) -> Timestamp {
    Timestamp::from_epoch_seconds((e as u64 + 1) * 86400)
}
fn uid(u: u8) -> Vec<u8> {
    Aci::from_uuid_bytes([u; 16]).service_id_binary()
}
fn tick() {
    let a = Instant::now();
    while Instant::now() <= a {
        std::hint::spin_loop();
    }
}

fn issue(epoch_no: u8, users: &[u8], issuer: u8, params: &CallLinkSecretParams) -> HashMap<Vec<u8>, GroupSendEndorsement> {
    let server = ServerSecretParams::generate([issuer; 32]);
    let exp = epoch(epoch_no);
    let key = GroupSendDerivedKeyPair::for_expiration(exp, &server);
    let mut users = users.to_vec();
    users.sort();
    users.dedup();
    let cts: Vec<_> = users.iter().map(|u| params.encrypt_uid(Aci::from_uuid_bytes([*u; 16]))).collect();
    let resp = GroupSendEndorsementsResponse::issue(cts.clone(), &key, [1; 32]);
    let now = Timestamp::from_epoch_seconds(exp.epoch_seconds() - 86400);
    let got = resp
        .receive_with_ciphertexts(cts, now, server.get_public_params().get_endorsement_public_key())
        .expect("genuine");
    users.iter().zip(got).map(|(u, r)| (uid(*u), r.decompressed)).collect()
}

/// What is known about one expiration.
#[derive(Default, Clone)]
struct Set {
    by_user: HashMap<Vec<u8>, GroupSendEndorsement>,
    invalid: bool,
    updated: u64,
}

fn endorsement_case(ops: &Vec<EOp>, obs: &mut Obs) -> Res {
    let params = CallLinkSecretParams::derive_from_root_key(&[7; 16]);
    let mut cache = EndorsementsCache::new(params);
    let mut model: BTreeMap<u8, Set> = BTreeMap::new();
    let mut marked: HashSet<u8> = HashSet::new(); // invalidated, possibly before being known
    let mut all_invalid = false;
    let mut shared: Option<u64> = None;
    let mut refused = 0;
    let mut served = 0;
    for (clock, op) in ops.iter().enumerate() {
        let clock = clock as u64;
        tick();
        let valid = |model: &BTreeMap<u8, Set>, marked: &HashSet<u8>, all_invalid: bool, e: u8| {
            model.contains_key(&e) && !marked.contains(&e) && !all_invalid
        };
        match op {
            EOp::Insert { epoch: e, users, issuer } => {
                let set = issue(*e, users, *issuer, &params);
                cache.insert(epoch(*e), set.clone());
                let m = model.entry(*e).or_default();
                m.by_user.extend(set);
                m.updated = clock;
                marked.remove(e);
                all_invalid = false;
            }
            EOp::Invalid(e) => {
                cache.set_invalid(e.map(epoch), "because".into());
                match e {
                    Some(e) => {
                        marked.insert(*e);
                    }
                    None => all_invalid = true,
                }
            }
            EOp::Clear { at, just_before } => {
                let secs = epoch(*at).epoch_seconds() - *just_before as u64;
                cache.clear_expired(SystemTime::UNIX_EPOCH + Duration::from_secs(secs));
                let gone: Vec<u8> = model
                    .keys()
                    .copied()
                    .filter(|k| if *just_before { k < at } else { k <= at })
                    .collect();
                for g in gone {
                    model.remove(&g);
                    marked.remove(&g);
                }
            }
            EOp::Share => {
                let want = model
                    .iter()
                    .next_back()
                    .filter(|(e, _)| valid(&model, &marked, all_invalid, **e))
                    .map(|(e, s)| (epoch(*e), s.by_user.clone()));
                let got = cache.get_latest().map(|(e, m)| (e, m.clone()));
                ensure_eq!(got, want, "latest endorsements");
                if want.is_some() {
                    shared = Some(clock);
                    served += 1;
                }
            }
            EOp::Token { epoch: e, users } => {
                let want = if valid(&model, &marked, all_invalid, *e) {
                    let set = &model[e].by_user;
                    users
                        .iter()
                        .map(|u| set.get(&uid(*u)).cloned())
                        .collect::<Option<Vec<_>>>()
                        .map(|es| GroupSendEndorsement::combine(es).to_token(params).into_full_token(epoch(*e)))
                } else {
                    None
                };
                if want.is_some() { served += 1 } else { refused += 1 }
                ensure_eq!(cache.get_token_for(epoch(*e), users.iter().map(|u| uid(*u)).collect()), want);
            }
            EOp::ForUsers { epoch: e, users } => {
                let chosen = e.or_else(|| model.keys().next_back().copied());
                let ids: Vec<_> = users.iter().map(|u| uid(*u)).collect();
                let want: Option<(Timestamp, HashMap<Vec<u8>, GroupSendEndorsement>)> = chosen
                    .filter(|e| valid(&model, &marked, all_invalid, *e))
                    .and_then(|e| {
                        let m: Option<HashMap<_, _>> =
                            ids.iter().map(|i| model[&e].by_user.get(i).map(|x| (i.clone(), *x))).collect();
                        m.map(|m| (epoch(e), m))
                    });
                let got = cache
                    .get_endorsements_for_users(e.map(epoch), ids.iter())
                    .map(|(e, m)| (e, m.into_iter().map(|(k, v)| (k.clone(), *v)).collect::<HashMap<_, _>>()));
                if want.is_some() { served += 1 } else { refused += 1 }
                ensure_eq!(got, want);
            }
        }
        for e in 0..5u8 {
            let want = valid(&model, &marked, all_invalid, e).then(|| (epoch(e), model[&e].by_user.clone()));
            let got = cache.get_endorsements_for_expiration(epoch(e)).map(|(e, m)| (e, m.clone()));
            ensure_eq!(got, want, "after {op:?}, epoch {e}");
        }
        let fresh = model.iter().next_back().is_some_and(|(e, s)| {
            valid(&model, &marked, all_invalid, *e) && shared.is_none_or(|t| s.updated > t)
        });
        ensure_eq!(cache.has_valid_update(), fresh, "news after {op:?}");
    }
    obs.nontrivial_if(refused > 0 && served > 0);
    Ok(())
}

pub fn c09(r: &mut Runner) {
    crate::endo::believed(r);
    r.facet(
        "histories",
        "1..40 operations over five expirations and six users: endorsements arriving (also replacing), one or all marked \
         invalid, clock passing expirations, tokens and lookups; non-trivial: some lookups served and some refused",
        par(60_000),
        || {
            let users = || proptest::collection::vec(0..6u8, 0..5);
            proptest::collection::vec(
                prop_oneof![
                    4 => (0..5u8, proptest::collection::vec(0..6u8, 0..7), 0..2u8).prop_map(|(epoch, users, issuer)| EOp::Insert { epoch, users, issuer }),
                    1 => proptest::option::of(0..5u8).prop_map(EOp::Invalid),
                    1 => (0..5u8, any::<bool>()).prop_map(|(at, just_before)| EOp::Clear { at, just_before }),
                    2 => Just(EOp::Share),
                    3 => (0..5u8, users()).prop_map(|(epoch, users)| EOp::Token { epoch, users }),
                    3 => (proptest::option::of(0..5u8), users()).prop_map(|(epoch, users)| EOp::ForUsers { epoch, users }),
                ],
                1..40,
            )
        },
        endorsement_case,
    );
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Entry {
    group: u8,
    version: String,
    content: u8,
    disabled: bool,
    /// the manifest's size or hash is off
    flaw: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Payload {
    /// content number, appended bytes
    Genuine(u8, Vec<u8>),
    Flipped(u8, u16),
    Short(u8, u8),
    Random(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AssetCase {
    manifest: Vec<Entry>,
    adds: Vec<(u8, Payload, bool)>,
}
fn content(i: u8) -> Vec<u8> {
    // some contents are prefixes of others
    (0..(i as usize % 4) * 5 + 1).map(|k| (k as u8).wrapping_mul(7) ^ (i / 4)).collect()
}
fn group(i: u8) -> String {
    ["opus-dred", "model", "other"][i as usize % 3].to_string()
}
fn meta(e: &Entry) -> AssetMetadata {
    let c = content(e.content);
    let mut hash = Sha512::digest(&c).to_vec();
    let mut size = c.len() as u32;
    match e.flaw {
        1 => hash[20] ^= 1,
        2 => size += 1,
        3 => {
            hash.pop();
        }
        _ => {}
    }
    AssetMetadata { asset_group: group(e.group), version: e.version.clone(), size_bytes: size, sha512_hash: hash }
}
fn payload(p: &Payload) -> Vec<u8> {
    match p {
        Payload::Genuine(i, tail) => [content(*i), tail.clone()].concat(),
        Payload::Flipped(i, bit) => {
            let mut c = content(*i);
            let b = *bit as usize % (c.len() * 8);
            c[b / 8] ^= 1 << (b % 8);
            c
        }
        Payload::Short(i, n) => {
            let mut c = content(*i);
            let keep = *n as usize % c.len();
            c.truncate(keep);
            c
        }
        Payload::Random(b) => b.clone(),
    }
}
fn parse_version(s: &str) -> Option<(u16, u16, u16)> {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() != 3 {
        return None;
    }
    Some((p[0].parse().ok()?, p[1].parse().ok()?, p[2].parse().ok()?))
}

fn asset_case(c: &AssetCase, obs: &mut Obs) -> Res {
    let mut manager = AssetManager::new(
        c.manifest.iter().map(|e| AssetManifestEntry { metadata: meta(e), disabled: e.disabled }).collect(),
    );
    let registry = manager.get_registry();
    let mut have: HashMap<(String, (u16, u16, u16)), (Vec<u8>, String)> = HashMap::new();
    let mut misordered = None;
    for (g, p, as_file) in &c.adds {
        let g = group(*g);
        let bytes = payload(p);
        let handle = if *as_file {
            let path = std::env::temp_dir().join(format!("rrcore-asset-{}-{:?}", std::process::id(), std::thread::current().id()));
            std::fs::write(&path, &bytes).map_err(|e| Fail::from(e.to_string()))?;
            AssetHandle::FilePath(path.to_string_lossy().into_owned())
        } else {
            AssetHandle::Content(bytes.clone())
        };
        let got = manager.add_asset_for_feature(&g, handle.clone());
        if let AssetHandle::FilePath(p) = &handle {
            let _ = std::fs::remove_file(p);
        }
        let entries: Vec<AssetMetadata> = c.manifest.iter().map(meta).collect();
        let of_group: Vec<usize> = (0..entries.len()).filter(|i| entries[*i].asset_group == g).collect();
        let matching: Vec<usize> = of_group
            .iter()
            .copied()
            .filter(|i| {
                let n = entries[*i].size_bytes as usize;
                bytes.len() >= n && Sha512::digest(&bytes[..n])[..] == entries[*i].sha512_hash[..]
            })
            .collect();
        match &got {
            Ok(()) => {
                // exactly one more asset, and it is a manifest entry's content to the byte
                let mut new = None;
                for i in &matching {
                    let Some(v) = parse_version(&entries[*i].version) else { continue };
                    if c.manifest[*i].disabled || have.contains_key(&(g.clone(), v)) {
                        continue;
                    }
                    let n = entries[*i].size_bytes as usize;
                    if let Some(a) = registry.get_asset(&g, SemanticVersion::new(v.0, v.1, v.2)) {
                        ensure_eq!(&a.content[..], &bytes[..n], "registered bytes");
                        new = Some((v, bytes[..n].to_vec(), entries[*i].version.clone()));
                        break;
                    }
                }
                let Some((v, b, text)) = new else { fail!("accepted, but nothing in the manifest allows it: {p:?} for {g}") };
                have.insert((g.clone(), v), (b, text));
                obs.label("registered");
            }
            Err(e) => {
                let want_unsupported = of_group.is_empty();
                ensure_eq!(matches!(e, AssetError::UnsupportedAsset(_)), want_unsupported, "{e:?}");
                if !want_unsupported && matching.is_empty() {
                    ensure_eq!(
                        e,
                        &AssetError::InvalidAssetPayload { asset_group: g.clone(), content_hash: hex::encode(Sha512::digest(&bytes)) }
                    );
                    obs.label("altered content refused");
                }
                if let [only] = matching[..] {
                    let version = parse_version(&entries[only].version);
                    if c.manifest[only].disabled {
                        ensure_eq!(e, &AssetError::DisabledAsset);
                        obs.label("disabled refused");
                    } else if let Some(v) = version {
                        ensure!(have.contains_key(&(g.clone(), v)), "refused a genuine new asset: {e:?}");
                        ensure!(matches!(e, AssetError::AssetAlreadyRegistered(..)), "{e:?}");
                    }
                }
            }
        }
        // the registry holds exactly what was accepted
        for gi in 0..3u8 {
            let g = group(gi);
            let mut want: Vec<_> = have.iter().filter(|(k, _)| k.0 == g).map(|(k, v)| (k.1, v.1.clone())).collect();
            let opts = manager.get_options_for(&g).unwrap_or_default();
            ensure_eq!(registry.get_options_for(&g).unwrap_or_default(), opts);
            want.sort();
            let sv = |v: &(u16, u16, u16)| SemanticVersion::new(v.0, v.1, v.2);
            let descending: Vec<_> = want.iter().rev().map(|(v, _)| sv(v)).collect();
            ensure_eq!(
                opts.iter().copied().collect::<HashSet<_>>(),
                descending.iter().copied().collect::<HashSet<_>>(),
                "versions on offer"
            );
            ensure_eq!(opts.len(), descending.len());
            if opts != descending {
                let mut by_text = want.clone();
                by_text.sort_by(|a, b| a.1.cmp(&b.1));
                if opts == by_text.iter().map(|(v, _)| sv(v)).collect::<Vec<_>>() {
                    misordered = Some(format!("{g}: offered {opts:?}, newest first would be {descending:?}"));
                } else {
                    fail!("{g}: versions in no meaningful order: {opts:?}");
                }
            }
            for ((gg, v), (b, _)) in &have {
                let got = registry.get_asset(&g, sv(v));
                if gg == &g {
                    ensure_eq!(got.map(|a| a.content.to_vec()), Some(b.clone()));
                } else if !have.contains_key(&(g.clone(), *v)) {
                    ensure!(got.is_none(), "asset of another group");
                }
            }
        }
    }
    obs.nontrivial_if(!have.is_empty());
    if let Some(m) = misordered {
        return Err(Fail { sig: Some("assets-offered-oldest-first".into()), msg: m });
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VersionCase((u16, u16, u16), (u16, u16, u16), String);
fn version_case(c: &VersionCase, obs: &mut Obs) -> Res {
    let mk = |v: (u16, u16, u16)| SemanticVersion::new(v.0, v.1, v.2);
    let (a, b) = (mk(c.0), mk(c.1));
    ensure_eq!(a.cmp(&b), c.0.cmp(&c.1));
    ensure_eq!(a.partial_cmp(&b), Some(c.0.cmp(&c.1)));
    ensure_eq!(a == b, c.0 == c.1);
    ensure_eq!(a.to_string(), format!("{}.{}.{}", c.0.0, c.0.1, c.0.2));
    ensure_eq!(SemanticVersion::try_from(a.to_string().as_str()).ok(), Some(a));
    // fewer than three numbers, or a part that is not one, is no version
    let parts: Vec<&str> = c.2.split('.').collect();
    let good = parts.len() >= 3 && parts[..3].iter().all(|p| p.parse::<u16>().is_ok());
    if !good {
        ensure!(SemanticVersion::try_from(c.2.as_str()).is_err(), "accepted {:?}", c.2);
    } else if parts.len() == 3 {
        ensure_eq!(SemanticVersion::try_from(c.2.as_str()).ok(), parse_version(&c.2).map(mk));
    }
    obs.nontrivial_if(a != b);
    Ok(())
}

pub fn c10(r: &mut Runner) {
    let version = || {
        prop_oneof![
            6 => (0..2u16, 0..3u16, 0..12u16).prop_map(|(a, b, c)| format!("{a}.{b}.{c}")),
            1 => Just("1.0".to_string()),
            1 => Just("1.2.70000".to_string()),
            1 => Just("a.b.c".to_string()),
        ]
    };
    r.facet(
        "registration",
        "manifests of up to eight entries (disabled, flawed, content prefixes of one another, versions that do not parse) and up \
         to ten additions, genuine, padded, altered, shortened or random, from memory or file; non-trivial: something was registered",
        par(40_000),
        move || {
            let entry = (0..3u8, version(), 0..8u8, proptest::bool::weighted(0.15), prop_oneof![8 => Just(0u8), 1 => 1..4u8])
                .prop_map(|(group, version, content, disabled, flaw)| Entry { group, version, content, disabled, flaw });
            let pay = prop_oneof![
                6 => (0..8u8, prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 0..6)]).prop_map(|(i, t)| Payload::Genuine(i, t)),
                1 => (0..8u8, any::<u16>()).prop_map(|(i, b)| Payload::Flipped(i, b)),
                1 => (0..8u8, any::<u8>()).prop_map(|(i, b)| Payload::Short(i, b)),
                1 => proptest::collection::vec(any::<u8>(), 0..10).prop_map(Payload::Random),
            ];
            (
                proptest::collection::vec(entry, 0..8),
                proptest::collection::vec((0..3u8, pay, proptest::bool::weighted(0.1)), 1..10),
            )
                .prop_map(|(manifest, adds)| AssetCase { manifest, adds })
        },
        asset_case,
    );
    r.facet(
        "versions",
        "pairs of versions and near-version texts; non-trivial: the versions differ",
        par(80_000),
        || {
            let v = || prop_oneof![(0..3u16, 0..3u16, 0..3u16), any::<(u16, u16, u16)>()];
            (v(), v(), prop_oneof!["[0-9]{0,6}(\\.[0-9]{0,6}){0,3}", "[0-9a.-]{0,8}"]).prop_map(|(a, b, s)| VersionCase(a, b, s))
        },
        version_case,
    );
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AOp {
    Now,
    /// run later, by this many milliseconds; distinct delays are at least 3 ms apart
    Later(u8),
    /// a task that itself queues another
    Nested,
    /// the sending side idles
    Pause(u8),
    /// a task that keeps the actor busy for this many hundred microseconds
    Busy(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ActorCase {
    senders: Vec<Vec<AOp>>,
    stop_early: bool,
}

#[derive(Debug)]
struct Ran {
    at: Instant,
    sender: usize,
    seq: usize,
    due: Option<Instant>,
}

fn actor_case(c: &ActorCase, obs: &mut Obs) -> Res {
    let stopper = Stopper::new();
    let log: Arc<Mutex<Vec<Ran>>> = Default::default();
    let in_task = Arc::new(std::sync::atomic::AtomicU32::new(0));
    let overlap = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let actor: Actor<u64> =
        Actor::start("test", stopper.clone(), |_| Ok(0)).map_err(|e| Fail::from(e.to_string()))?;
    let mut threads = vec![];
    let mut total = 0;
    for (s, ops) in c.senders.iter().enumerate() {
        total += ops.iter().map(|o| match o { AOp::Pause(_) => 0, AOp::Nested => 2, _ => 1 }).sum::<usize>();
        let (actor, log, ops) = (actor.clone(), log.clone(), ops.clone());
        let (in_task, overlap) = (in_task.clone(), overlap.clone());
        threads.push(std::thread::spawn(move || {
            for (seq, op) in ops.into_iter().enumerate() {
                let (log, in_task, overlap) = (log.clone(), in_task.clone(), overlap.clone());
                let due = match op {
                    AOp::Later(ms) => Some(Instant::now() + Duration::from_millis(ms as u64 * 3)),
                    _ => None,
                };
                let inner = actor.clone();
                let op2 = op.clone();
                let task = move |count: &mut u64| {
                    if in_task.fetch_add(1, std::sync::atomic::Ordering::SeqCst) != 0 {
                        overlap.store(true, std::sync::atomic::Ordering::SeqCst);
                    }
                    *count += 1;
                    log.lock().unwrap().push(Ran { at: Instant::now(), sender: s, seq, due });
                    if let AOp::Busy(n) = op2 {
                        std::thread::sleep(Duration::from_micros(n as u64 * 100));
                    }
                    if let AOp::Nested = op2 {
                        let log = log.clone();
                        inner.send(move |count| {
                            *count += 1;
                            log.lock().unwrap().push(Ran { at: Instant::now(), sender: 1000 + s, seq, due: None });
                        });
                    }
                    in_task.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                };
                match op {
                    AOp::Pause(n) => std::thread::sleep(Duration::from_micros(n as u64 * 100)),
                    AOp::Later(ms) => actor.send_delayed(Duration::from_millis(ms as u64 * 3), task),
                    _ => actor.send(task),
                }
            }
        }));
    }
    for t in threads {
        t.join().map_err(|_| Fail::from("sender panicked"))?;
    }
    let deadline = Instant::now() + Duration::from_secs(20);
    if !c.stop_early {
        while log.lock().unwrap().len() < total && Instant::now() < deadline {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    let (tx, rx) = mpsc::channel();
    let probe = stopper.clone();
    ensure!(!stopper.has_been_stopped());
    std::thread::spawn(move || {
        probe.stop_all_and_join();
        let _ = tx.send(());
    });
    ensure!(rx.recv_timeout(Duration::from_secs(20)).is_ok(), "stopping does not finish");
    ensure!(stopper.has_been_stopped());
    let stopped_at = Instant::now();
    let late_log = log.clone();
    actor.send(move |_| late_log.lock().unwrap().push(Ran { at: Instant::now(), sender: 9999, seq: 0, due: None }));
    let ran_count = log.lock().unwrap().len();
    if c.stop_early {
        std::thread::sleep(Duration::from_millis(4));
        ensure_eq!(log.lock().unwrap().len(), ran_count, "a task ran after the actor had been stopped");
        obs.label("stopped with work outstanding");
    }
    let ran = log.lock().unwrap();
    ensure!(!overlap.load(std::sync::atomic::Ordering::SeqCst), "two tasks ran at once");
    if !c.stop_early {
        ensure_eq!(ran.len(), total, "every task runs exactly once");
    }
    let mut seen = HashSet::new();
    for r in ran.iter() {
        ensure!(seen.insert((r.sender, r.seq)), "task {r:?} ran twice");
        ensure!(r.at <= stopped_at, "ran after being stopped");
        if let Some(due) = r.due {
            ensure!(r.at >= due, "ran {:?} before it was due", due - r.at);
            obs.label("delayed task");
        }
    }
    for s in (0..c.senders.len()).chain(1000..1000 + c.senders.len()) {
        let immediate: Vec<usize> = ran.iter().filter(|r| r.sender == s && r.due.is_none()).map(|r| r.seq).collect();
        ensure!(immediate.windows(2).all(|w| w[0] < w[1]), "tasks of sender {s} overtook one another: {immediate:?}");
        // of one sender's delayed tasks, the one due earlier (by more than the measuring error) runs first,
        // provided it was queued before the later one ran
        let delayed: Vec<&Ran> = ran.iter().filter(|r| r.sender == s && r.due.is_some()).collect();
        for w in delayed.windows(2) {
            let (a, b) = (w[0], w[1]); // a ran before b
            if b.seq < a.seq {
                // b was already queued when a was: it may only run later if it was due later
                ensure!(
                    b.due.unwrap() + Duration::from_millis(2) > a.due.unwrap(),
                    "delayed tasks ran out of order: {a:?} then {b:?}"
                );
            }
        }
    }
    obs.nontrivial_if(c.senders.len() > 1 && ran.len() > 4);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Send(u8),
    Recv,
    Close,
    DropSender,
}
fn stream_case(ops: &Vec<SOp>, obs: &mut Obs) -> Res {
    let (tx, rx) = mpsc::channel::<u8>();
    let mut tx = Some(tx);
    let mut s = EventStream::from(rx);
    let mut q = std::collections::VecDeque::new();
    let mut closed = false;
    let mut drained_after_close = 0;
    for op in ops {
        match op {
            SOp::Send(v) => {
                if let Some(tx) = &tx {
                    let r = tx.send(*v);
                    ensure_eq!(r.is_ok(), !closed);
                    if !closed {
                        q.push_back(*v);
                    }
                }
            }
            SOp::Recv => {
                // would block on an open, empty stream
                if closed || tx.is_none() || !q.is_empty() {
                    let want = q.pop_front();
                    ensure_eq!(s.recv(), want);
                    drained_after_close += (closed && want.is_some()) as u32;
                }
            }
            SOp::Close => {
                s.close();
                closed = true;
            }
            SOp::DropSender => tx = None,
        }
    }
    obs.nontrivial_if(drained_after_close > 0);
    Ok(())
}

/// One sender and a worker that can be kept busy, so that the order of everything is known.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum GOp {
    Now,
    Later(u8),
    /// delayed work handed over by work
    NestedLater(u8),
    Sleep(u8),
    Hold,
    Release,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gated {
    ops: Vec<GOp>,
    stop_held: bool,
}
fn gated_case(c: &Gated, obs: &mut Obs) -> Res {
    struct Did {
        n: usize,
        at: Instant,
    }
    struct Due {
        from: Instant,
        to: Instant,
    }
    let stopper = Stopper::new();
    let actor: Actor<()> = Actor::start("gated", stopper.clone(), |_| Ok(())).map_err(|e| Fail::from(e.to_string()))?;
    let did: Arc<Mutex<Vec<Did>>> = Default::default();
    // when the delayed ones are due, by number; nested ones fill theirs in when handed over
    let due: Arc<Mutex<HashMap<usize, Due>>> = Default::default();
    let mut kinds: Vec<(bool, Instant)> = vec![]; // immediate?, handed over at
    let mut gate: Option<mpsc::Sender<()>> = None;
    let hold = |actor: &Actor<()>| {
        let (go, wait) = mpsc::channel::<()>();
        let (here, held) = mpsc::channel::<()>();
        actor.send(move |_| {
            let _ = here.send(());
            let _ = wait.recv();
        });
        held.recv_timeout(Duration::from_secs(20)).map(|_| go)
    };
    for op in &c.ops {
        match op {
            GOp::Now | GOp::Later(_) | GOp::NestedLater(_) => {
                let n = kinds.len();
                let log = did.clone();
                let task = move |_: &mut ()| log.lock().unwrap().push(Did { n, at: Instant::now() });
                kinds.push((matches!(op, GOp::Now), Instant::now()));
                match op {
                    GOp::Now => actor.send(task),
                    GOp::Later(ms) => {
                        let d = Duration::from_millis(*ms as u64);
                        let from = Instant::now() + d;
                        actor.send_delayed(d, task);
                        due.lock().unwrap().insert(n, Due { from, to: Instant::now() + d });
                    }
                    _ => {
                        let GOp::NestedLater(ms) = op else { unreachable!() };
                        let d = Duration::from_millis(*ms as u64);
                        let (a, due) = (actor.clone(), due.clone());
                        actor.send(move |_| {
                            let from = Instant::now() + d;
                            a.send_delayed(d, task);
                            due.lock().unwrap().insert(n, Due { from, to: Instant::now() + d });
                        });
                    }
                }
            }
            GOp::Sleep(ms) => std::thread::sleep(Duration::from_millis(*ms as u64)),
            GOp::Hold => {
                if gate.is_none() {
                    gate = Some(hold(&actor).map_err(|_| Fail::from("the worker does not get to its work"))?);
                }
            }
            GOp::Release => gate = None,
        }
    }
    let outstanding = if c.stop_held {
        if gate.is_none() {
            gate = Some(hold(&actor).map_err(|_| Fail::from("the worker does not get to its work"))?);
        }
        let before = did.lock().unwrap().len();
        let joins = stopper.stop_all_without_joining();
        ensure!(stopper.has_been_stopped());
        drop(gate);
        for j in joins {
            j.join().map_err(|_| Fail::from("the worker crashed"))?;
        }
        ensure_eq!(did.lock().unwrap().len(), before, "work ran after the stop");
        kinds.len() - before
    } else {
        drop(gate);
        let begin = Instant::now();
        while did.lock().unwrap().len() < kinds.len() {
            ensure!(begin.elapsed() < Duration::from_secs(20), "work that never ran");
            std::thread::sleep(Duration::from_micros(200));
        }
        stopper.stop_all_and_join();
        ensure_eq!(did.lock().unwrap().len(), kinds.len(), "work ran more than once");
        0
    };
    let did = did.lock().unwrap();
    let due = due.lock().unwrap();
    let mut waited_on = 0;
    for (k, d) in did.iter().enumerate() {
        ensure!(!did[..k].iter().any(|e| e.n == d.n), "work {} ran twice", d.n);
        if kinds[d.n].0 {
            // in the order handed over
            ensure!(did[..k].iter().all(|e| !kinds[e.n].0 || e.n < d.n), "immediate work {} was overtaken", d.n);
            continue;
        }
        let Some(w) = due.get(&d.n) else { fail!("work {} ran before it was handed over", d.n) };
        ensure!(d.at >= w.from, "work {} ran {:?} early", d.n, w.from - d.at);
        // Whatever was certainly due before, and handed over before that ran, comes first.
        for e in did[k + 1..].iter().filter(|e| !kinds[e.n].0) {
            let v = &due[&e.n];
            let nested = matches!(c.ops.iter().filter(|o| matches!(o, GOp::Now | GOp::Later(_) | GOp::NestedLater(_))).nth(e.n), Some(GOp::NestedLater(_)));
            let first = !nested && e.n < d.n && v.to < w.from;
            ensure!(!first, "work {} overtook work {} which was due {:?} before", d.n, e.n, w.from - v.to);
            waited_on += (e.n < d.n) as usize;
        }
    }
    obs.label_if(outstanding > 0, "stopped with work outstanding");
    obs.label_if(waited_on > 0, "later work due first");
    obs.nontrivial_if(outstanding > 0 || due.len() > 1);
    Ok(())
}

pub fn c11(r: &mut Runner) {
    r.facet(
        "actor_schedules",
        "1..4 threads queueing immediate, delayed, nested and slow tasks, then stopping, possibly with work outstanding; \
         non-trivial: two senders or more and over four tasks run",
        par(1_600),
        || {
            let op = prop_oneof![
                4 => Just(AOp::Now),
                2 => (0..5u8).prop_map(AOp::Later),
                1 => Just(AOp::Nested),
                1 => (0..10u8).prop_map(AOp::Pause),
                1 => (0..10u8).prop_map(AOp::Busy),
            ];
            (
                proptest::collection::vec(proptest::collection::vec(op, 1..10), 1..4),
                proptest::bool::weighted(0.3),
            )
                .prop_map(|(senders, stop_early)| ActorCase { senders, stop_early })
        },
        actor_case,
    );
    r.facet(
        "busy_worker",
        "1..14 pieces of immediate, delayed and nested delayed work around a worker held up at generated moments, then a stop, \
         possibly with work outstanding; non-trivial: work outstanding at the stop, or two delayed pieces",
        par(4_000),
        || {
            let op = prop_oneof![
                3 => Just(GOp::Now),
                5 => (0..8u8).prop_map(GOp::Later),
                1 => (0..5u8).prop_map(GOp::NestedLater),
                3 => (0..6u8).prop_map(GOp::Sleep),
                3 => Just(GOp::Hold),
                2 => Just(GOp::Release),
            ];
            (proptest::collection::vec(op, 1..14), proptest::bool::weighted(0.3))
                .prop_map(|(ops, stop_held)| Gated { ops, stop_held })
        },
        gated_case,
    );
    r.facet(
        "event_stream",
        "histories of sends, receives and closing; non-trivial: events sent before closing are received after it",
        par(40_000),
        || {
            proptest::collection::vec(
                prop_oneof![5 => any::<u8>().prop_map(SOp::Send), 4 => Just(SOp::Recv), 1 => Just(SOp::Close), 1 => Just(SOp::DropSender)],
                1..30,
            )
        },
        stream_case,
    );
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Piece {
    V4(Ipv4Addr),
    V6 { addr: Ipv6Addr, form: u8 },
    Zone(Ipv6Addr, String),
    Embedded([u16; 4], u8, Ipv4Addr),
    Password(String),
    Foundation(u64),
    Plain(String),
    NewLine,
}
fn v6_text(a: &Ipv6Addr, form: u8) -> String {
    match form {
        0 => a.to_string(),
        1 => a.segments().iter().map(|s| format!("{s:x}")).collect::<Vec<_>>().join(":"),
        2 => a.segments().iter().map(|s| format!("{s:04X}")).collect::<Vec<_>>().join(":"),
        _ => a.to_string().to_uppercase(),
    }
}

/// Text that holds nothing secret by construction.
fn plain() -> impl Strategy<Value = String> {
    prop_oneof!["[ g-zG-Z_=/-]{0,12}", "[g-zG-Z]{1,5}=[0-9]{1,5}", "\\PC{0,6}".prop_map(|s| s.chars().filter(|c| !c.is_ascii_hexdigit() && !".:x".contains(*c)).collect())]
}

fn redact_case(c: &Vec<Piece>, obs: &mut Obs) -> Res {
    let mut text = String::new();
    let mut secrets: Vec<String> = vec![];
    let mut kept: Vec<String> = vec![];
    let mut line_secret = false;
    let mut line_kept: Vec<String> = vec![];
    for p in c {
        match p {
            Piece::V4(a) => {
                text.push_str(&format!(" {a} "));
                secrets.push(a.to_string());
            }
            Piece::V6 { addr, form } => {
                let t = v6_text(addr, *form);
                if form % 2 == 0 { text.push_str(&format!(" [{t}]:5000 ")) } else { text.push_str(&format!(" {t} ")) }
                if t != "::" {
                    secrets.push(t);
                }
            }
            Piece::Zone(a, zone) => {
                let s = a.segments();
                let t = format!("fe80::{:x}:{:x}%{zone}", s[6], s[7]);
                text.push_str(&format!(" {t} "));
                secrets.push(t);
            }
            Piece::Embedded(s, n, a) => {
                let t = s[..*n as usize].iter().map(|s| format!("{s:x}:")).collect::<String>() + &format!(":{a}");
                text.push_str(&format!(" {t} "));
                secrets.push(t);
                secrets.push(a.to_string());
            }
            Piece::Password(w) => {
                text.push_str(&format!("\na=ice-pwd:{w}\n"));
                secrets.push(w.clone());
                if !line_secret {
                    kept.append(&mut line_kept);
                }
                line_kept.clear();
                line_secret = false;
            }
            Piece::Foundation(n) => {
                text.push_str(&format!("a=candidate:{n} 1 udp "));
                secrets.push(format!("candidate:{n}"));
            }
            Piece::Plain(s) => {
                let s = format!("<{}>", s.replace(['\n', '\r'], ""));
                text.push_str(&s);
                line_kept.push(s);
            }
            Piece::NewLine => {
                text.push('\n');
                kept.append(&mut line_kept);
            }
        }
    }
    kept.append(&mut line_kept);
    let out = redact_string(text.as_str()).into_owned();
    for s in &secrets {
        ensure!(!out.contains(s.as_str()), "{s:?} still shows in {out:?}");
    }
    // and what is left no longer holds any address at all
    for token in out.split(|ch: char| !(ch.is_ascii_hexdigit() || ch == '.' || ch == ':')) {
        let t = token.trim_matches('.');
        ensure!(t.parse::<Ipv4Addr>().is_err(), "{t} shows in {out:?}");
        ensure!(t.parse::<Ipv6Addr>().is_err() || t == "::", "{t} shows in {out:?}");
    }
    for k in &kept {
        ensure!(out.contains(k.as_str()), "{k:?} was lost: {out:?}");
    }
    if secrets.is_empty() && !text.contains("::") {
        ensure_eq!(out, text, "harmless text was altered");
        obs.label("harmless");
    }
    let again = redact_string(out.as_str()).into_owned();
    ensure_eq!(again.trim_end(), out.trim_end(), "redacting twice changes something");
    obs.nontrivial_if(secrets.len() > 1);
    Ok(())
}

pub fn c12(r: &mut Runner) {
    r.facet(
        "redaction",
        "texts assembled from addresses in every spelling, zones, embedded addresses, ICE passwords, candidate foundations \
         and harmless pieces; non-trivial: two secrets or more",
        par(60_000),
        || {
            let v6 = prop_oneof![
                any::<[u16; 8]>(),
                proptest::collection::vec(prop_oneof![2 => Just(0u16), 1 => any::<u16>(), 1 => 0..16u16], 8).prop_map(|v| v.try_into().unwrap()),
                any::<[u8; 4]>().prop_map(|a| Ipv4Addr::from(a).to_ipv6_mapped().segments()),
            ]
            .prop_map(|s: [u16; 8]| Ipv6Addr::from(s));
            proptest::collection::vec(
                prop_oneof![
                    2 => any::<[u8; 4]>().prop_map(|a| Piece::V4(a.into())),
                    4 => (v6.clone(), 0..4u8).prop_map(|(addr, form)| Piece::V6 { addr, form }),
                    1 => (v6, "[a-z]{2,3}[0-9]").prop_map(|(a, z)| Piece::Zone(a, z)),
                    1 => (any::<[u16; 4]>(), 1..5u8, any::<[u8; 4]>()).prop_map(|(s, n, a)| Piece::Embedded(s, n, a.into())),
                    1 => "[a-zA-Z0-9+/]{22,24}".prop_map(Piece::Password),
                    1 => any::<u64>().prop_map(Piece::Foundation),
                    3 => plain().prop_map(Piece::Plain),
                    1 => Just(Piece::NewLine),
                ],
                1..14,
            )
        },
        redact_case,
    );
}
