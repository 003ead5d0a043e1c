//! N01 negotiation, N02 control calls, N03 events of the media engine, N04 ownership: the border
//! between ringrtc and the C++ media engine, with the engine replaced by `fake`.
use std::{
    collections::BTreeSet,
    ffi::{CString, c_char},
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    sync::{Arc, Mutex},
};

use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par, seq};
use proptest::{collection::vec, option, prelude::*, sample::select};
use ringrtc::{
    common::{CallConfig, DataMode, units::DataRate},
    core::{
        assets::{Asset, AssetRegistry},
        signaling::IceCandidate,
    },
    protobuf::signaling::{ConnectionParametersV4, VideoCodec},
    webrtc::{
        self,
        ice_gatherer::IceGatherer,
        injectable_network::Packet,
        media::{
            AudioBandwidth, AudioDecoderConfig, AudioEncoderConfig, AudioTrack, MediaStream,
            VideoFrame, VideoFrameMetadata, VideoPixelFormat, VideoSource, VideoTrack,
        },
        network::NetworkInterfaceType,
        peer_connection::{PeerConnection, Protocol, SendRates},
        peer_connection_factory::{
            AudioConfig, AudioJitterBufferConfig, IceServer, PeerConnectionFactory,
            RffiPeerConnectionKind,
        },
        peer_connection_observer::{
            IceConnectionState, NetworkAdapterType, NetworkRoute, PeerConnectionObserver,
            PeerConnectionObserverTrait, TransportProtocol,
        },
        rtp,
        rtp_observer::{RtpObserver, RtpObserverTrait},
        sdp_observer::{
            SessionDescription, SrtpCryptoSuite, SrtpKey, create_csd_observer, create_ssd_observer,
        },
    },
};
use serde::{Deserialize, Serialize};

use crate::{
    fake::{
        self, Data, DescData, EncoderRec, IceServerRec, Kind, LevelC, P, PcCall, V4, World, at,
        buffer_rec, new_local_world,
    },
    fake_cubeb,
};

pub fn no_audio_backend() {
    fake_cubeb::st().init_fails = true;
}

// ---------------------------------------------------------------- generators

/// Text of what goes on the wire: plain, odd, rarely with a NUL.
fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => "[a-zA-Z0-9+/]{0,24}",
        2 => "\\PC{0,12}",
        1 => "[a-z\\x00]{1,6}",
    ]
}
fn clean_text() -> impl Strategy<Value = String> {
    prop_oneof![4 => "[a-zA-Z0-9+/:=. ]{0,24}", 1 => "[^\\x00]{0,12}"]
}
fn codecs() -> impl Strategy<Value = Vec<Option<i32>>> {
    vec(
        prop_oneof![
            4 => Just(Some(8)),
            4 => Just(Some(9)),
            1 => Just(None),
            1 => prop_oneof![select(vec![0, 7, 10, 46, 47, -8, i32::MAX]), any::<i32>()].prop_map(Some),
        ],
        0..5,
    )
}
fn known_codecs() -> impl Strategy<Value = Vec<i32>> {
    vec(select(vec![8, 9]), 0..4)
}
fn bytes(n: usize) -> impl Strategy<Value = Vec<u8>> {
    vec(any::<u8>(), 0..n)
}
pub fn ip() -> impl Strategy<Value = IpAddr> {
    prop_oneof![
        any::<[u8; 4]>().prop_map(|o| IpAddr::V4(Ipv4Addr::from(o))),
        any::<[u8; 16]>().prop_map(|o| IpAddr::V6(Ipv6Addr::from(o))),
        any::<[u8; 4]>().prop_map(|o| IpAddr::V6(Ipv4Addr::from(o).to_ipv6_mapped())),
    ]
}
pub fn addr() -> impl Strategy<Value = SocketAddr> {
    (ip(), any::<u16>()).prop_map(|(i, p)| SocketAddr::new(i, p))
}
fn demux_ids() -> impl Strategy<Value = Vec<u32>> {
    vec(prop_oneof![any::<u32>(), 0u32..40], 0..20)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Key {
    suite: u8,
    key: Vec<u8>,
    salt: Vec<u8>,
}
fn key() -> impl Strategy<Value = Key> {
    (0u8..3).prop_flat_map(|suite| {
        let s = suite_of(suite);
        let sizes = match s {
            SrtpCryptoSuite::Aes128CmSha1 => (16, 14),
            SrtpCryptoSuite::AeadAes128Gcm => (16, 12),
            SrtpCryptoSuite::AeadAes256Gcm => (32, 12),
        };
        (vec(any::<u8>(), sizes.0), vec(any::<u8>(), sizes.1))
            .prop_map(move |(key, salt)| Key { suite, key, salt })
    })
}
fn suite_of(n: u8) -> SrtpCryptoSuite {
    match n {
        0 => SrtpCryptoSuite::Aes128CmSha1,
        1 => SrtpCryptoSuite::AeadAes128Gcm,
        _ => SrtpCryptoSuite::AeadAes256Gcm,
    }
}
/// What the engine calls a suite (rtc_base/ssl_stream_adapter.h).
fn suite_code(n: u8) -> i32 {
    [1, 7, 8][n as usize]
}
impl Key {
    fn get(&self) -> SrtpKey {
        SrtpKey { suite: suite_of(self.suite), key: self.key.clone(), salt: self.salt.clone() }
    }
}
fn config(tcc: bool, enc: bool, dec: bool) -> CallConfig {
    CallConfig {
        enable_tcc_audio: tcc,
        enable_vp9_encode: enc,
        enable_vp9_decode: dec,
        ..Default::default()
    }
}
fn raw_desc() -> (usize, SessionDescription) {
    raw_desc_with(None)
}
fn raw_desc_with(asym: Option<bool>) -> (usize, SessionDescription) {
    let d = fake::make(Kind::Desc, Data::Desc { data: DescData::Raw("x".into()), srtp: None });
    let u = webrtc::ptr::Unique::from(unsafe { webrtc::ptr::Owned::from_ptr(d as *const _) });
    (d, SessionDescription::new(u, asym))
}
fn pc() -> (usize, PeerConnection) {
    let p = fake::blank_pc();
    let a = webrtc::Arc::from_owned(unsafe { webrtc::ptr::OwnedRc::from_ptr(p as *const _) });
    (p, PeerConnection::new(a, None, None))
}
fn done(w: &World) -> Res {
    w.audit(true).map_err(|e| e.into())
}
fn once<R>(w: &World, name: &'static str, fails: bool, f: impl FnOnce() -> R) -> R {
    w.set_fail(name, if fails { 0 } else { i64::MAX });
    let r = f();
    w.set_fail(name, i64::MAX);
    r
}

// ---------------------------------------------------------------- N01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FromV4 {
    offer: bool,
    local: bool,
    tcc: bool,
    vp9: (bool, bool),
    ufrag: Option<String>,
    pwd: Option<String>,
    recv: Vec<Option<i32>>,
    enc: Vec<Option<i32>>,
    dec: Vec<Option<i32>>,
    public_key: Option<Vec<u8>>,
    max: Option<u64>,
    fails: bool,
}
fn from_v4() -> impl Strategy<Value = FromV4> {
    (
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<(bool, bool)>()),
        (option::weighted(0.9, text()), option::weighted(0.9, text())),
        (codecs(), codecs(), codecs()),
        (option::of(bytes(33)), option::of(any::<u64>()), prop::bool::weighted(0.05)),
    )
        .prop_map(
            |((offer, local, tcc, vp9), (ufrag, pwd), (recv, enc, dec), (public_key, max, fails))| {
                FromV4 { offer, local, tcc, vp9, ufrag, pwd, recv, enc, dec, public_key, max, fails }
            },
        )
}
fn proto_codecs(c: &[Option<i32>]) -> Vec<VideoCodec> {
    c.iter().map(|t| VideoCodec { r#type: *t }).collect()
}
fn supported(c: &[Option<i32>]) -> Vec<i32> {
    c.iter().filter_map(|t| t.filter(|t| *t == 8 || *t == 9)).collect()
}

fn check_from_v4(i: &FromV4, o: &mut Obs) -> Res {
    let w = new_local_world();
    let v4 = ConnectionParametersV4 {
        public_key: i.public_key.clone(),
        ice_ufrag: i.ufrag.clone(),
        ice_pwd: i.pwd.clone(),
        receive_video_codecs: proto_codecs(&i.recv),
        encode_only_video_codecs: proto_codecs(&i.enc),
        decode_only_video_codecs: proto_codecs(&i.dec),
        max_bitrate_bps: i.max,
    };
    let cfg = config(i.tcc, i.vp9.0, i.vp9.1);
    let r = once(&w, "from_v4", i.fails, || {
        if i.offer {
            SessionDescription::offer_from_v4(&v4, &cfg, i.local)
        } else {
            SessionDescription::answer_from_v4(&v4, &cfg, i.local)
        }
    });
    let nul = [&i.ufrag, &i.pwd].iter().any(|t| t.as_ref().is_some_and(|t| t.contains('\0')));
    if nul || i.fails {
        o.label_if(nul, "NUL in credentials");
        ensure!(r.is_err(), "accepted");
        ensure!(w.all(Kind::Desc).is_empty(), "a description was made for refused parameters");
        return done(&w);
    }
    let d = match r {
        Ok(d) => d,
        Err(e) => fail!("refused: {e}"),
    };
    let asym = !i.enc.is_empty() && !i.dec.is_empty();
    o.label_if(asym, "asymmetric codecs");
    o.nontrivial_if(!i.recv.is_empty() || asym);
    ensure_eq!(d.supports_asymmetric, Some(asym));
    let want = DescData::V4 {
        offer: i.offer,
        v4: V4 {
            ufrag: i.ufrag.clone().unwrap_or_default(),
            pwd: i.pwd.clone().unwrap_or_default(),
            bidir: supported(&i.recv),
            enc: if asym { supported(&i.enc) } else { vec![] },
            dec: if asym { supported(&i.dec) } else { vec![] },
        },
        tcc: i.tcc,
        vp9: if asym { i.vp9 } else { (i.vp9.0 && i.vp9.1, i.vp9.0 && i.vp9.1) },
        local: asym.then_some(i.local),
        legacy: !asym,
    };
    let all = w.all(Kind::Desc);
    ensure_eq!(all.len(), 1);
    ensure_eq!(fake::desc_rec(at(all[0])).data, want);
    drop(d);
    done(&w)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ToV4 {
    asym: Option<bool>,
    vp9: (bool, bool),
    ufrag: String,
    pwd: String,
    codecs: (Vec<i32>, Vec<i32>, Vec<i32>),
    public_key: Vec<u8>,
    mode: u8,
    custom: (u64, u64),
    fails: bool,
    local: bool,
    tcc: bool,
}
fn to_v4() -> impl Strategy<Value = ToV4> {
    (
        (option::weighted(0.95, any::<bool>()), any::<(bool, bool)>(), clean_text(), clean_text()),
        (known_codecs(), known_codecs(), known_codecs()),
        (bytes(40), 0u8..3, (0u64..1 << 40, any::<u64>())),
        (prop::bool::weighted(0.05), any::<bool>(), any::<bool>()),
    )
        .prop_map(|((asym, vp9, ufrag, pwd), codecs, (public_key, mode, custom), (fails, local, tcc))| {
            ToV4 { asym, vp9, ufrag, pwd, codecs, public_key, mode, custom, fails, local, tcc }
        })
}
fn check_to_v4(i: &ToV4, o: &mut Obs) -> Res {
    let w = new_local_world();
    let (p, d) = raw_desc_with(i.asym);
    let engine = V4 {
        ufrag: i.ufrag.clone(),
        pwd: i.pwd.clone(),
        bidir: i.codecs.0.clone(),
        enc: i.codecs.1.clone(),
        dec: i.codecs.2.clone(),
    };
    *w.v4_answer.lock().unwrap() = Some(engine.clone());
    let cfg = config(i.tcc, i.vp9.0, i.vp9.1);
    let (mode, max) = match i.mode {
        0 => (DataMode::Low, 300_000),
        1 => (DataMode::Normal, 2_000_000),
        _ => (
            DataMode::Custom {
                max_bitrate: DataRate::from_bps(i.custom.0),
                max_group_call_receive_rate: DataRate::from_bps(i.custom.1),
            },
            i.custom.0,
        ),
    };
    let r = once(&w, "to_v4", i.fails, || d.to_v4(i.public_key.clone(), &cfg, mode));
    let Some(asym) = i.asym else {
        ensure!(r.is_err(), "a group call description became 1:1 parameters");
        ensure!(w.v4_requests.lock().unwrap().is_empty());
        drop(d);
        return done(&w);
    };
    let want = if asym {
        (p, false, i.vp9.0, i.vp9.1)
    } else {
        (p, true, i.vp9.0 && i.vp9.1, i.vp9.0 && i.vp9.1)
    };
    ensure_eq!(*w.v4_requests.lock().unwrap(), vec![want], "(description, legacy, encode, decode)");
    if i.fails {
        ensure!(r.is_err());
        drop(d);
        return done(&w);
    }
    let v4 = match r {
        Ok(v) => v,
        Err(e) => fail!("refused: {e}"),
    };
    let types = |c: &[VideoCodec]| c.iter().map(|c| c.r#type).collect::<Vec<_>>();
    let some = |c: &[i32]| c.iter().map(|c| Some(*c)).collect::<Vec<_>>();
    ensure_eq!(v4.public_key, Some(i.public_key.clone()));
    ensure_eq!(v4.ice_ufrag, Some(i.ufrag.clone()));
    ensure_eq!(v4.ice_pwd, Some(i.pwd.clone()));
    ensure_eq!(types(&v4.receive_video_codecs), some(&i.codecs.0));
    ensure_eq!(types(&v4.encode_only_video_codecs), some(&i.codecs.1));
    ensure_eq!(types(&v4.decode_only_video_codecs), some(&i.codecs.2));
    ensure_eq!(v4.max_bitrate_bps, Some(max));
    drop(d);
    // What one side sends, the other side's engine gets.
    o.nontrivial();
    o.label_if(asym, "asymmetric codecs");
    let back = match SessionDescription::offer_from_v4(&v4, &cfg, i.local) {
        Ok(v) => v,
        Err(e) => fail!("own parameters refused: {e}"),
    };
    let asym = !i.codecs.1.is_empty() && !i.codecs.2.is_empty();
    let DescData::V4 { v4: got, legacy, .. } = fake::desc_rec(at(w.last(Kind::Desc).unwrap())).data
    else {
        fail!("not made from parameters")
    };
    ensure_eq!(legacy, !asym);
    let want = if asym { engine } else { V4 { enc: vec![], dec: vec![], ..engine } };
    ensure_eq!(got, want);
    drop(back);
    done(&w)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Group {
    local: bool,
    ufrag: String,
    pwd: String,
    key: Key,
    demux: Option<u32>,
    ids: Vec<u32>,
    fails: bool,
}
fn group() -> impl Strategy<Value = Group> {
    (
        any::<bool>(),
        text(),
        text(),
        key(),
        option::weighted(0.8, any::<u32>()),
        demux_ids(),
        prop::bool::weighted(0.05),
    )
        .prop_map(|(local, ufrag, pwd, key, demux, ids, fails)| Group {
            local,
            ufrag,
            pwd,
            key,
            demux,
            ids,
            fails,
        })
}
fn check_group(i: &Group, o: &mut Obs) -> Res {
    let w = new_local_world();
    let k = i.key.get();
    let (what, demux) =
        if i.local { ("group_local", i.demux.unwrap_or(0)) } else { ("group_remote", i.demux.unwrap_or(9)) };
    let r = once(&w, what, i.fails, || {
        if i.local {
            SessionDescription::local_for_group_call(&i.ufrag, &i.pwd, &k, i.demux, &i.ids)
        } else {
            SessionDescription::remote_for_group_call(&i.ufrag, &i.pwd, &k, demux, &i.ids)
        }
    });
    if i.fails || i.ufrag.contains('\0') || i.pwd.contains('\0') {
        ensure!(r.is_err(), "accepted");
        ensure!(w.all(Kind::Desc).is_empty());
        return done(&w);
    }
    o.nontrivial_if(!i.ids.is_empty());
    let d = match r {
        Ok(d) => d,
        Err(e) => fail!("refused: {e}"),
    };
    ensure_eq!(d.supports_asymmetric, None);
    ensure_eq!(
        fake::desc_rec(at(w.last(Kind::Desc).unwrap())).data,
        DescData::Group {
            local: i.local,
            ufrag: i.ufrag.clone(),
            pwd: i.pwd.clone(),
            suite: suite_code(i.key.suite),
            key: i.key.key.clone(),
            salt: i.key.salt.clone(),
            local_demux: demux,
            demux_ids: i.ids.clone(),
        }
    );
    // Suites have the key sizes of the SRTP profiles.
    ensure_eq!((k.suite.key_size(), k.suite.salt_size()), (i.key.key.len(), i.key.salt.len()));
    drop(d);
    done(&w)
}

/// Create, munge and set descriptions in any order, with the engine failing at times.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Nego {
    Create { offer: bool, asym: Option<bool>, fails: bool },
    Key { n: usize, key: Key, fails: bool },
    Sdp { n: usize, text: Option<Vec<u8>> },
    Set { n: usize, local: bool, fails: bool },
    Drop { n: usize },
}
fn nego() -> impl Strategy<Value = Vec<Nego>> {
    vec(
        prop_oneof![
            3 => (any::<bool>(), option::of(any::<bool>()), prop::bool::weighted(0.2))
                .prop_map(|(offer, asym, fails)| Nego::Create { offer, asym, fails }),
            3 => (any::<usize>(), key(), prop::bool::weighted(0.2))
                .prop_map(|(n, key, fails)| Nego::Key { n, key, fails }),
            2 => (any::<usize>(), option::weighted(0.8, vec(1u8..=255, 0..30)))
                .prop_map(|(n, text)| Nego::Sdp { n, text }),
            3 => (any::<usize>(), any::<bool>(), prop::bool::weighted(0.2))
                .prop_map(|(n, local, fails)| Nego::Set { n, local, fails }),
            1 => any::<usize>().prop_map(|n| Nego::Drop { n }),
        ],
        1..20,
    )
}
type Srtp = Option<(i32, Vec<u8>, Vec<u8>)>;
fn check_nego(ops: &[Nego], o: &mut Obs) -> Res {
    let w = new_local_world();
    let (p, peer) = pc();
    let mut have: Vec<(SessionDescription, usize, Srtp)> = vec![];
    let mut want: Vec<PcCall> = vec![];
    for op in ops {
        match op {
            Nego::Create { offer, asym, fails } => {
                let csd = create_csd_observer(*asym);
                let before = w.all(Kind::Desc).len();
                once(&w, if *offer { "create_offer" } else { "create_answer" }, *fails, || {
                    if *offer { peer.create_offer(&csd) } else { peer.create_answer(&csd) }
                });
                want.push(if *offer { PcCall::CreateOffer } else { PcCall::CreateAnswer });
                let r = csd.get_result();
                if *fails {
                    match (r, csd.get_result()) {
                        (Err(a), Err(b)) => {
                            ensure!(a.to_string().contains("no can do"), "reason lost: {a}");
                            ensure_eq!(a.to_string(), b.to_string());
                        }
                        _ => fail!("a failed create operation gave a description"),
                    }
                } else {
                    let d = match r {
                        Ok(d) => d,
                        Err(e) => fail!("create: {e}"),
                    };
                    ensure_eq!(d.supports_asymmetric, *asym);
                    let all = w.all(Kind::Desc);
                    ensure_eq!(all.len(), before + 1);
                    // The description is handed out once.
                    if let Ok(again) = csd.get_result() {
                        ensure!(again.take_rffi().is_null(), "description handed out twice");
                    }
                    have.push((d, *all.last().unwrap(), None));
                }
            }
            Nego::Key { n, key, fails } => {
                if have.is_empty() {
                    continue;
                }
                let n = n % have.len();
                let e = &mut have[n];
                let r = once(&w, "set_srtp_key", *fails, || {
                    e.0.disable_dtls_and_set_srtp_key(&key.get())
                });
                ensure_eq!(r.is_err(), *fails);
                if !fails {
                    e.2 = Some((suite_code(key.suite), key.key.clone(), key.salt.clone()));
                }
                ensure_eq!(fake::desc_rec(at(e.1)).srtp, e.2);
            }
            Nego::Sdp { n, text } => {
                if have.is_empty() {
                    continue;
                }
                let e = &have[n % have.len()];
                *w.sdp_answer.lock().unwrap() = text.clone();
                let r = once(&w, "to_sdp", text.is_none(), || e.0.to_sdp());
                match text {
                    None => ensure!(r.is_err(), "text of a description that has none"),
                    Some(t) => match r {
                        Ok(got) => ensure_eq!(got, String::from_utf8_lossy(t).into_owned()),
                        Err(e) => fail!("to_sdp: {e}"),
                    },
                }
            }
            Nego::Set { n, local, fails } => {
                if have.is_empty() {
                    continue;
                }
                o.nontrivial();
                let n = n % have.len();
                let (d, ptr, srtp) = have.remove(n);
                let mut rec = fake::desc_rec(at(ptr));
                rec.srtp = srtp;
                let ssd = create_ssd_observer();
                once(&w, if *local { "set_local" } else { "set_remote" }, *fails, || {
                    if *local {
                        peer.set_local_description(&ssd, d)
                    } else {
                        peer.set_remote_description(&ssd, d)
                    }
                });
                want.push(if *local { PcCall::SetLocal(rec) } else { PcCall::SetRemote(rec) });
                for _ in 0..2 {
                    match ssd.get_result() {
                        Ok(()) => ensure!(!fails, "failure reported as success"),
                        Err(e) => {
                            ensure!(*fails, "success reported as {e}");
                            ensure!(e.to_string().contains("no can do"), "reason lost: {e}");
                        }
                    }
                }
            }
            Nego::Drop { n } => {
                if !have.is_empty() {
                    let n = n % have.len();
                    have.remove(n);
                }
            }
        }
        ensure_eq!(at(p).pc(|s| s.calls.clone()), want);
    }
    drop(have);
    drop(peer);
    done(&w)
}

pub fn n01(r: &mut Runner) {
    no_audio_backend();
    r.facet(
        "parameters to description",
        "the parameters name at least one codec",
        par(15_000),
        from_v4,
        check_from_v4,
    );
    r.facet(
        "description to parameters and back",
        "the description is for a 1:1 call and converts",
        par(15_000),
        to_v4,
        check_to_v4,
    );
    r.facet(
        "group call descriptions",
        "the description has at least one remote participant",
        par(15_000),
        group,
        check_group,
    );
    r.facet(
        "create, key and set",
        "at least one description is set",
        par(6_000),
        nego,
        |ops: &Vec<Nego>, o: &mut Obs| check_nego(ops, o),
    );
}

// ---------------------------------------------------------------- N02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EncCfg {
    ints: [i32; 6],
    bandwidth: usize,
    small: [u8; 3],
    adaptation: i32,
    flags: (bool, bool, bool),
    dnn: Option<Vec<u8>>,
}
const BANDS: [(AudioBandwidth, i32); 6] = [
    (AudioBandwidth::Auto, -1000),
    (AudioBandwidth::Full, 1105),
    (AudioBandwidth::SuperWide, 1104),
    (AudioBandwidth::Wide, 1103),
    (AudioBandwidth::Medium, 1102),
    (AudioBandwidth::Narrow, 1101),
];
fn enc_cfg() -> impl Strategy<Value = EncCfg> {
    (any::<[i32; 6]>(), 0usize..6, any::<[u8; 3]>(), any::<i32>(), any::<(bool, bool, bool)>(), option::of(vec(any::<u8>(), 1..60)))
        .prop_map(|(ints, bandwidth, small, adaptation, flags, dnn)| EncCfg {
            ints,
            bandwidth,
            small,
            adaptation,
            flags,
            dnn,
        })
}
impl EncCfg {
    fn get(&self) -> AudioEncoderConfig {
        AudioEncoderConfig {
            initial_packet_size_ms: self.ints[0],
            min_packet_size_ms: self.ints[1],
            max_packet_size_ms: self.ints[2],
            initial_bitrate_bps: self.ints[3],
            min_bitrate_bps: self.ints[4],
            max_bitrate_bps: self.ints[5],
            bandwidth: BANDS[self.bandwidth].0,
            complexity: self.small[0],
            adaptation: self.adaptation,
            enable_cbr: self.flags.0,
            enable_dtx: self.flags.1,
            enable_fec: self.flags.2,
            dred_duration: self.small[1],
            min_packet_loss_percent: self.small[2],
            dnn_weights: self.dnn.clone().map(Arc::new),
        }
    }
    fn want(&self) -> EncoderRec {
        let mut ints = self.ints.to_vec();
        ints.push(BANDS[self.bandwidth].1);
        ints.push(self.small[0] as i32);
        ints.push(self.adaptation);
        ints.push(self.small[1] as i32);
        ints.push(self.small[2] as i32);
        EncoderRec { ints, flags: self.flags, dnn: self.dnn.clone() }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Update(Vec<u32>, bool),
    SendOnly(bool),
    Outgoing(bool),
    Incoming(bool),
    Playout(bool),
    Recording(bool),
    AddSdp(String, bool),
    AddServer(IpAddr, u16, Option<Option<String>>, bool),
    Remove(Vec<SocketAddr>),
    Rates([Option<u32>; 3]),
    SendRtp(u8, u16, u32, u32, Vec<u8>, bool),
    ReceiveRtp(u8, bool, bool),
    Encoders(EncCfg),
    Decoders(Option<Vec<u8>>, Option<u8>),
    Levels(u16, Vec<(u32, u16)>),
    Bandwidth(u32),
    Gatherer(bool, bool),
    Close,
    Regather,
}
fn call() -> impl Strategy<Value = Call> {
    let rate = || option::of(prop_oneof![0u32..=i32::MAX as u32, 0u32..3_000_000]);
    let f = || prop::bool::weighted(0.2);
    prop_oneof![
        (demux_ids(), f()).prop_map(|(a, b)| Call::Update(a, b)),
        f().prop_map(Call::SendOnly),
        any::<bool>().prop_map(Call::Outgoing),
        any::<bool>().prop_map(Call::Incoming),
        any::<bool>().prop_map(Call::Playout),
        any::<bool>().prop_map(Call::Recording),
        (text(), f()).prop_map(|(a, b)| Call::AddSdp(a, b)),
        (ip(), any::<u16>(), option::of(option::of(text())), f())
            .prop_map(|(a, b, c, d)| Call::AddServer(a, b, c, d)),
        vec(addr(), 0..6).prop_map(Call::Remove),
        [rate(), rate(), rate()].prop_map(Call::Rates),
        (any::<u8>(), any::<u16>(), any::<u32>(), any::<u32>(), bytes(50), f())
            .prop_map(|(a, b, c, d, e, g)| Call::SendRtp(a, b, c, d, e, g)),
        (any::<u8>(), any::<bool>(), f()).prop_map(|(a, b, c)| Call::ReceiveRtp(a, b, c)),
        enc_cfg().prop_map(Call::Encoders),
        (option::of(vec(any::<u8>(), 1..40)), option::of(any::<u8>()))
            .prop_map(|(a, b)| Call::Decoders(a, b)),
        (any::<u16>(), vec(any::<(u32, u16)>(), 0..=100)).prop_map(|(a, b)| Call::Levels(a, b)),
        any::<u32>().prop_map(Call::Bandwidth),
        (f(), f()).prop_map(|(a, b)| Call::Gatherer(a, b)),
        Just(Call::Close),
        Just(Call::Regather),
    ]
}

fn check_calls(calls: &[Call], o: &mut Obs) -> Res {
    let w = new_local_world();
    let (p, peer) = pc();
    let mut want: Vec<PcCall> = vec![];
    let mut gatherers: Vec<IceGatherer> = vec![];
    for c in calls {
        let mut n = want.len();
        match c {
            Call::Update(ids, fails) => {
                let r = once(&w, "update_transceivers", *fails, || peer.update_transceivers(ids));
                ensure_eq!(r.is_err(), *fails);
                want.push(PcCall::UpdateTransceivers(ids.clone()));
            }
            Call::SendOnly(fails) => {
                ensure_eq!(
                    once(&w, "send_only", *fails, || peer.create_send_only_transceiver()),
                    !fails
                );
                want.push(PcCall::SendOnlyTransceiver);
            }
            Call::Outgoing(b) => {
                peer.set_outgoing_media_enabled(*b);
                want.push(PcCall::OutgoingMedia(*b));
            }
            Call::Incoming(b) => {
                peer.set_incoming_media_enabled(*b);
                want.push(PcCall::IncomingMedia(*b));
            }
            Call::Playout(b) => {
                peer.set_audio_playout_enabled(*b);
                want.push(PcCall::Playout(*b));
            }
            Call::Recording(b) => {
                peer.set_audio_recording_enabled(*b);
                want.push(PcCall::Recording(*b));
            }
            Call::AddSdp(t, fails) => {
                let r = once(&w, "add_candidate", *fails, || peer.add_ice_candidate_from_sdp(t));
                ensure_eq!(r.is_err(), *fails || t.contains('\0'));
                if !t.contains('\0') {
                    want.push(PcCall::AddCandidate(t.clone()));
                }
            }
            Call::AddServer(ip, port, proto, fails) => {
                let r = once(&w, "add_server", *fails, || {
                    peer.add_ice_candidate_from_server(
                        *ip,
                        *port,
                        match proto {
                            None => Protocol::Udp,
                            Some(None) => Protocol::Tcp,
                            Some(Some(h)) => Protocol::Tls(h),
                        },
                    )
                });
                let hostname = proto.clone().flatten();
                let nul = hostname.as_ref().is_some_and(|h| h.contains('\0'));
                ensure_eq!(r.is_err(), *fails || nul);
                if !nul {
                    want.push(PcCall::AddServer { ip: *ip, port: *port, tcp: proto.is_some(), hostname });
                }
            }
            Call::Remove(a) => {
                peer.remove_ice_candidates(a.iter().copied());
                want.push(PcCall::RemoveCandidates(a.clone()));
            }
            Call::Rates(r) => {
                let g = |r: Option<u32>| r.map(|r| DataRate::from_bps(r as u64));
                let _ = peer.set_send_rates(SendRates { min: g(r[0]), start: g(r[1]), max: g(r[2]) });
                let i = |r: Option<u32>| r.map_or(-1, |r| r as i32);
                want.push(PcCall::SendBitrates(i(r[0]), i(r[1]), i(r[2])));
            }
            Call::SendRtp(pt, seqnum, timestamp, ssrc, data, fails) => {
                let h = rtp::Header { pt: *pt, seqnum: *seqnum, timestamp: *timestamp, ssrc: *ssrc };
                let r = once(&w, "send_rtp", *fails, || peer.send_rtp(h, data));
                ensure_eq!(r.is_err(), *fails);
                want.push(PcCall::SendRtp {
                    pt: *pt,
                    seq: *seqnum,
                    ts: *timestamp,
                    ssrc: *ssrc,
                    payload: data.clone(),
                });
            }
            Call::ReceiveRtp(pt, on, fails) => {
                let r = once(&w, "receive_rtp", *fails, || peer.receive_rtp(*pt, *on));
                ensure_eq!(r.is_err(), *fails);
                want.push(PcCall::ReceiveRtp(*pt, *on));
            }
            Call::Encoders(c) => {
                peer.configure_audio_encoders(&c.get());
                want.push(PcCall::Encoders(c.want()));
            }
            Call::Decoders(dnn, complexity) => {
                peer.configure_audio_decoders(&AudioDecoderConfig {
                    dnn_weights: dnn.clone().map(Arc::new),
                    complexity: *complexity,
                });
                want.push(PcCall::Decoders {
                    dnn: dnn.clone(),
                    complexity: complexity.map_or(-1, |c| c as i32),
                });
            }
            Call::Levels(captured, received) => {
                let l: Vec<LevelC> = received
                    .iter()
                    .map(|(demux_id, level)| LevelC { demux_id: *demux_id, level: *level })
                    .collect();
                at(p).pc(|s| s.levels = (*captured, l));
                let (c, r) = peer.get_audio_levels();
                ensure_eq!(c, *captured);
                let r: Vec<(u32, u16)> = r.iter().map(|l| (l.demux_id, l.level)).collect();
                ensure_eq!(r, *received);
                want.push(PcCall::AudioLevels);
            }
            Call::Bandwidth(b) => {
                at(p).pc(|s| s.bandwidth = *b);
                ensure_eq!(peer.get_last_bandwidth_estimate().as_bps(), *b as u64);
                want.push(PcCall::Bandwidth);
            }
            Call::Gatherer(fails, use_fails) => {
                let g = once(&w, "create_gatherer", *fails, || peer.create_shared_ice_gatherer());
                ensure_eq!(g.is_err(), *fails);
                want.push(PcCall::CreateGatherer);
                if let Ok(g) = g {
                    n += 1;
                    let ptr = w.last(Kind::Gatherer).unwrap();
                    let r = once(&w, "use_gatherer", *use_fails, || peer.use_shared_ice_gatherer(&g));
                    ensure_eq!(r.is_err(), *use_fails);
                    want.push(PcCall::UseGatherer(ptr));
                    gatherers.push(g);
                }
            }
            Call::Close => {
                peer.close();
                want.push(PcCall::Close);
            }
            Call::Regather => {
                peer.regather_on_all_networks();
                want.push(PcCall::Regather);
            }
        }
        let got = at(p).pc(|s| s.calls.clone());
        ensure!(got == want, "{c:?}: expected {:?}, the engine got {:?}", &want[n.min(want.len())..], &got[n.min(got.len())..]);
    }
    o.nontrivial_if(want.len() >= 3);
    drop(gatherers);
    drop(peer);
    done(&w)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Setup {
    audio: (bool, bool, bool, bool),
    injectable: bool,
    trials: String,
    kind: u8,
    jitter: (i32, i32, i32, bool),
    rtcp: i32,
    ice: Vec<(String, String, String, Vec<String>)>,
    video: bool,
    flags: (bool, bool, bool),
    fails: Option<usize>,
}
fn setup() -> impl Strategy<Value = Setup> {
    (
        (any::<(bool, bool, bool, bool)>(), any::<bool>(), clean_text(), 0u8..3),
        (any::<(i32, i32, i32, bool)>(), any::<i32>()),
        vec((clean_text(), clean_text(), clean_text(), vec(clean_text(), 0..4)), 0..4),
        (any::<bool>(), any::<(bool, bool, bool)>(), option::weighted(0.3, 0usize..6)),
    )
        .prop_map(|((audio, injectable, trials, kind), (jitter, rtcp), ice, (video, flags, fails))| Setup {
            audio,
            injectable,
            trials,
            kind,
            jitter,
            rtcp,
            ice,
            video,
            flags,
            fails,
        })
}
const SETUP_FAILS: [&str; 6] =
    ["factory", "audio_track", "video_source", "video_track", "pc_observer", "peer_connection"];

fn check_setup(i: &Setup, o: &mut Obs) -> Res {
    let w = new_local_world();
    let failing = i.fails.map(|n| SETUP_FAILS[n]);
    if let Some(f) = failing {
        w.set_fail(f, 0);
    }
    let mut rec = Box::new(Recorder::default());
    let r = (|| -> anyhow::Result<()> {
        let cfg = AudioConfig {
            high_pass_filter_enabled: i.audio.0,
            aec_enabled: i.audio.1,
            ns_enabled: i.audio.2,
            agc_enabled: i.audio.3,
        };
        let pcf = PeerConnectionFactory::new(&cfg, i.injectable, &i.trials, None)?;
        if pcf.injectable_network().is_some() != i.injectable {
            anyhow::bail!("CHECK injectable network: {}", !i.injectable);
        }
        let audio = pcf.create_outgoing_audio_track()?;
        let audio_ptr = w.last(Kind::AudioTrack).unwrap();
        let mut video_ptr = 0;
        let mut source = None;
        let video = if i.video {
            let s = pcf.create_outgoing_video_source()?;
            let t = pcf.create_outgoing_video_track(&s)?;
            video_ptr = w.last(Kind::VideoTrack).unwrap();
            source = Some(s);
            Some(t)
        } else {
            None
        };
        let obs = PeerConnectionObserver::new(
            webrtc::ptr::Borrowed::from_ptr(&*rec as *const Recorder),
            i.flags.0,
            i.flags.1,
            i.flags.2,
        )?;
        let obs_ptr = w.last(Kind::PcObserver).unwrap();
        let servers: Vec<IceServer> = i
            .ice
            .iter()
            .map(|(u, p, h, urls)| IceServer::new(u.clone(), p.clone(), h.clone(), urls.clone()))
            // As they are cloned on their way to the call.
            .map(|s| s.clone())
            .collect();
        let pc = pcf.create_peer_connection(
            obs,
            match i.kind {
                0 => RffiPeerConnectionKind::Direct,
                1 => RffiPeerConnectionKind::Relayed,
                _ => RffiPeerConnectionKind::GroupCall,
            },
            &AudioJitterBufferConfig {
                max_packets: i.jitter.0,
                min_delay_ms: i.jitter.1,
                max_target_delay_ms: i.jitter.2,
                fast_accelerate: i.jitter.3,
            },
            i.rtcp,
            &servers,
            audio,
            video,
        )?;
        let (o, _, flags) = fake::pc_observer(obs_ptr);
        let ok = at(w.last(Kind::Pc).unwrap()).pc(|s| {
            let ice: Vec<IceServerRec> = i
                .ice
                .iter()
                .map(|(u, p, h, urls)| IceServerRec {
                    username: u.clone(),
                    password: p.clone(),
                    hostname: h.clone(),
                    urls: urls.clone(),
                })
                .collect();
            if s.observer != obs_ptr
                || s.kind != i.kind
                || s.jitter != i.jitter
                || s.rtcp_ms != i.rtcp
                || s.audio != audio_ptr
                || s.video != video_ptr
            {
                return Err(format!(
                    "CHECK connection made with {:?}",
                    (s.observer == obs_ptr, s.kind, s.jitter, s.rtcp_ms, s.audio == audio_ptr, s.video == video_ptr)
                ));
            }
            if s.ice != ice {
                return Err(format!("CHECK ICE servers {:?}", s.ice));
            }
            Ok(())
        });
        if let Err(e) = ok {
            anyhow::bail!(e);
        }
        if o as usize != &*rec as *const Recorder as usize || flags != i.flags {
            anyhow::bail!("CHECK observer registered with {flags:?}");
        }
        drop(source);
        drop(pcf);
        drop(pc);
        Ok(())
    })();
    let f = w.factories.lock().unwrap().clone();
    ensure_eq!(f, vec![(i.injectable, i.audio, i.trials.clone())]);
    rec.touch();
    let reached = failing.is_some_and(|f| i.video || !f.starts_with("video"));
    match r {
        Ok(()) => {
            ensure!(!reached, "{failing:?} failed unnoticed");
            o.nontrivial();
        }
        Err(e) => {
            ensure!(!e.to_string().starts_with("CHECK"), "{e}");
            ensure!(reached, "{e}");
        }
    }
    done(&w)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Media {
    Frame { w: u32, h: u32, format: i32, seed: u8, fails: bool },
    Push(usize),
    Adapt(u16, u16, u8),
    Enable(bool, bool),
    Hint(bool),
    Rgba(usize, bool),
    I420(usize, bool),
    Scale(usize, u32, u32),
}
fn media() -> impl Strategy<Value = Vec<Media>> {
    vec(
        prop_oneof![
            4 => (0u32..12, 0u32..12, -1i32..4, any::<u8>(), Just(false)).prop_map(|(w, h, format, seed, fails)| Media::Frame {
                w: w * 2, h: h * 2, format, seed, fails
            }),
            2 => any::<usize>().prop_map(Media::Push),
            1 => any::<(u16, u16, u8)>().prop_map(|(a, b, c)| Media::Adapt(a, b, c)),
            1 => any::<(bool, bool)>().prop_map(|(a, b)| Media::Enable(a, b)),
            1 => any::<bool>().prop_map(Media::Hint),
            2 => (any::<usize>(), prop::bool::weighted(0.2)).prop_map(|(a, b)| Media::Rgba(a, b)),
            2 => (any::<usize>(), prop::bool::weighted(0.2)).prop_map(|(a, b)| Media::I420(a, b)),
            1 => (any::<usize>(), 0u32..5000, 0u32..5000).prop_map(|(a, b, c)| Media::Scale(a, b, c)),
        ],
        1..24,
    )
}
fn check_media(ops: &[Media], o: &mut Obs) -> Res {
    let w = new_local_world();
    let pcf = PeerConnectionFactory::new(&Default::default(), false, "", None).map_err(|e| e.to_string())?;
    let audio = pcf.create_outgoing_audio_track().map_err(|e| e.to_string())?;
    let source = pcf.create_outgoing_video_source().map_err(|e| e.to_string())?;
    let video = pcf.create_outgoing_video_track(&source).map_err(|e| e.to_string())?;
    let (ap, sp, vp) = (
        w.last(Kind::AudioTrack).unwrap(),
        w.last(Kind::VideoSource).unwrap(),
        w.last(Kind::VideoTrack).unwrap(),
    );
    let mut frames: Vec<(VideoFrame, usize)> = vec![];
    let (mut a_on, mut v_on, mut hints, mut formats, mut pushed) =
        (vec![], vec![], vec![], vec![], vec![]);
    for op in ops {
        match op {
            Media::Frame { w: wi, h, format, seed, .. } => {
                let f = VideoPixelFormat::from_i32(*format);
                ensure_eq!(f.is_some(), (0..3).contains(format));
                let Some(f) = f else { continue };
                let (name, n) = match *format {
                    0 => ("i420", wi * h * 3 / 2),
                    1 => ("nv12", wi * h * 3 / 2),
                    _ => ("rgba", wi * h * 4),
                };
                let data: Vec<u8> = (0..n).map(|k| (k as u8).wrapping_mul(31) ^ seed).collect();
                let fr = VideoFrame::copy_from_slice(*wi, *h, f, &data);
                ensure_eq!((fr.width(), fr.height()), (*wi, *h));
                let p = w.last(Kind::Buffer).unwrap();
                let r = buffer_rec(p);
                ensure_eq!((r.origin.as_str(), r.width, r.height), (name, *wi, *h));
                ensure!(r.bytes == data, "pixels changed on the way to the engine");
                // Not rotated, so applying the rotation changes nothing.
                let fr = fr.apply_rotation();
                ensure_eq!(w.last(Kind::Buffer).unwrap(), p);
                frames.push((fr, p));
            }
            Media::Push(n) => {
                if !frames.is_empty() {
                    o.nontrivial();
                    let n = n % frames.len();
                    let (f, p) = frames.remove(n);
                    source.push_frame(f);
                    pushed.push(p);
                }
            }
            Media::Adapt(a, b, c) => {
                source.adapt_output_format(*a, *b, *c);
                formats.push((*a, *b, *c));
            }
            Media::Enable(v, on) => {
                if *v {
                    video.set_enabled(*on);
                    v_on.push(*on);
                } else {
                    audio.set_enabled(*on);
                    a_on.push(*on);
                }
            }
            Media::Hint(on) => {
                video.set_content_hint(*on);
                hints.push(*on);
            }
            Media::Rgba(n, fails) => {
                if !frames.is_empty() {
                    let (f, p) = &frames[n % frames.len()];
                    let mut out = vec![0x77u8; (f.width() * f.height() * 4) as usize + 8];
                    let len = out.len() - 8;
                    let ok = once(&w, "to_rgba", *fails, || f.to_rgba(&mut out[..len]));
                    ensure_eq!(ok, !fails);
                    let r = buffer_rec(*p);
                    for (k, b) in out.iter().enumerate() {
                        let want = if *fails || k >= len { 0x77 } else { r.bytes.get(k % r.bytes.len().max(1)).copied().unwrap_or(0) };
                        ensure_eq!(*b, want, "pixel byte {}", k);
                    }
                }
            }
            Media::I420(n, fails) => {
                if !frames.is_empty() {
                    let (f, p) = &frames[n % frames.len()];
                    let got = once(&w, "as_i420", *fails, || f.as_i420().map(|s| s.to_vec()));
                    ensure_eq!(got.is_none(), *fails);
                    if let Some(got) = got {
                        let r = buffer_rec(*p);
                        ensure!(got == r.bytes[..(r.width * r.height * 3 / 2) as usize], "pixels");
                    }
                }
            }
            Media::Scale(n, wi, h) => {
                if !frames.is_empty() {
                    let (f, p) = &frames[n % frames.len()];
                    let s = f.scale(*wi, *h);
                    ensure_eq!((s.width(), s.height(), s.metadata().height), (*wi, *h, *h));
                    let r = buffer_rec(w.last(Kind::Buffer).unwrap());
                    ensure_eq!((r.width, r.height), (*wi, *h));
                    ensure_eq!(r.origin, format!("{}|scale", buffer_rec(*p).origin));
                }
            }
        }
    }
    let tracks = |p: usize| {
        at(p)
            .with(|d| match d {
                Data::Track { enabled, hints, .. } => (enabled.clone(), hints.clone()),
                _ => unreachable!(),
            })
            .unwrap()
    };
    ensure_eq!(tracks(ap), (a_on, vec![]));
    ensure_eq!(tracks(vp), (v_on, hints));
    let s = at(sp)
        .with(|d| match d {
            Data::Source { frames, formats } => (frames.clone(), formats.clone()),
            _ => unreachable!(),
        })
        .unwrap();
    ensure_eq!(s, (pushed, formats));
    drop((frames, audio, source, video, pcf));
    done(&w)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dred {
    enc: EncCfg,
    dec: (Option<Vec<u8>>, Option<u8>),
    /// (group, version, content)
    assets: Vec<(u8, (u64, u64, u64), Vec<u8>)>,
}
fn dred() -> impl Strategy<Value = Dred> {
    (
        enc_cfg(),
        (option::of(bytes(8)), option::of(any::<u8>())),
        vec((0u8..3, (0u64..3, 0u64..3, 0u64..3), vec(any::<u8>(), 1..20)), 0..4),
        any::<bool>(),
    )
        .prop_map(|(mut enc, dec, assets, zero)| {
            if zero && enc.small[1] % 2 == 0 {
                enc.small[1] = 0;
            }
            Dred { enc, dec, assets }
        })
}
fn check_dred(i: &Dred, o: &mut Obs) -> Res {
    let mut map: std::collections::HashMap<String, BTreeSet<Asset>> = Default::default();
    let mut weights = vec![];
    for (g, v, content) in &i.assets {
        let group = ["opus-dred", "opus-osce", "other"][*g as usize];
        let meta = ringrtc::protobuf::assets::AssetMetadata {
            asset_group: group.into(),
            version: format!("{}.{}.{}", v.0, v.1, v.2),
            size_bytes: content.len() as u32,
            sha512_hash: <sha2::Sha512 as sha2::Digest>::digest(content).to_vec(),
            ..asset_meta()
        };
        let Ok(a) = Asset::new(meta, content.clone()) else { fail!("asset refused") };
        if map.entry(group.into()).or_default().insert(a) && *g == 0 {
            weights.push(content.clone());
        }
    }
    let reg = AssetRegistry::new(map);
    let mut enc = i.enc.get();
    let mut dec =
        AudioDecoderConfig { dnn_weights: i.dec.0.clone().map(Arc::new), complexity: i.dec.1 };
    webrtc::media::configure_dred_from_assets(&reg, &mut enc, &mut dec);
    let mut want = i.enc.want();
    let mut want_dec = i.dec.0.clone();
    let got_dec = dec.dnn_weights.as_ref().map(|w| w.to_vec());
    if i.enc.small[1] != 0 {
        o.nontrivial();
        if weights.is_empty() {
            o.label("no weights");
            want.ints[9] = 0;
        } else {
            o.label("weights");
            let Some(used) = enc.dnn_weights.as_ref().map(|w| w.to_vec()) else {
                fail!("weights are there but not used")
            };
            ensure!(weights.contains(&used), "weights of no registered asset");
            want.dnn = Some(used.clone());
            want_dec = Some(used);
            want.flags.2 = false;
        }
    }
    let w = new_local_world();
    let (p, peer) = pc();
    peer.configure_audio_encoders(&enc);
    ensure_eq!(at(p).pc(|s| s.calls.clone()), vec![PcCall::Encoders(want)]);
    ensure_eq!((got_dec, dec.complexity), (want_dec, i.dec.1));
    drop(peer);
    done(&w)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Net {
    Sender,
    AddInterface(String, u8, IpAddr, u16),
    RemoveInterface(String),
    Receive(SocketAddr, SocketAddr, Vec<u8>),
    Send(SocketAddr, SocketAddr, Vec<u8>),
    Clone,
    Drop,
}
fn net() -> impl Strategy<Value = Vec<Net>> {
    vec(
        prop_oneof![
            2 => Just(Net::Sender),
            1 => (clean_text(), 0u8..7, ip(), any::<u16>())
                .prop_map(|(a, b, c, d)| Net::AddInterface(a, b, c, d)),
            1 => clean_text().prop_map(Net::RemoveInterface),
            3 => (addr(), addr(), bytes(60)).prop_map(|(a, b, c)| Net::Receive(a, b, c)),
            3 => (addr(), addr(), bytes(60)).prop_map(|(a, b, c)| Net::Send(a, b, c)),
            1 => Just(Net::Clone),
            1 => Just(Net::Drop),
        ],
        1..24,
    )
}
const INTERFACES: [(NetworkInterfaceType, i32); 7] = [
    (NetworkInterfaceType::Unknown, 0),
    (NetworkInterfaceType::Ethernet, 1),
    (NetworkInterfaceType::Wifi, 2),
    (NetworkInterfaceType::Cellular, 4),
    (NetworkInterfaceType::Vpn, 8),
    (NetworkInterfaceType::Loopback, 16),
    (NetworkInterfaceType::Any, 32),
];
struct CountDrop(Arc<Mutex<Vec<usize>>>, usize);
impl Drop for CountDrop {
    fn drop(&mut self) {
        self.0.lock().unwrap().push(self.1);
    }
}
fn check_net(ops: &[Net], o: &mut Obs) -> Res {
    let w = new_local_world();
    let pcf = PeerConnectionFactory::new(&Default::default(), true, "", None).map_err(|e| e.to_string())?;
    let mut nets = vec![pcf.injectable_network().ok_or("no injectable network")?];
    drop(pcf);
    let sent: Arc<Mutex<Vec<(usize, SocketAddr, SocketAddr, Vec<u8>)>>> = Default::default();
    let dropped: Arc<Mutex<Vec<usize>>> = Default::default();
    let mut senders = 0usize;
    let (mut ifs, mut removed, mut received, mut want_sent) = (vec![], vec![], vec![], vec![]);
    for op in ops {
        let Some(n) = nets.last().cloned() else { break };
        match op {
            Net::Sender => {
                senders += 1;
                let (s, k) = (sent.clone(), senders);
                let c = CountDrop(dropped.clone(), k);
                n.set_sender(Box::new(move |p: Packet| {
                    let _ = &c;
                    s.lock().unwrap().push((k, p.source, p.dest, p.data));
                }));
            }
            Net::AddInterface(name, t, ip, pref) => {
                let (t, code) = INTERFACES[*t as usize];
                n.add_interface(name, t, *ip, *pref);
                ifs.push((name.clone(), code, *ip, *pref));
            }
            Net::RemoveInterface(name) => {
                n.remove_interface(name);
                removed.push(name.clone());
            }
            Net::Receive(a, b, d) => {
                n.receive_udp(Packet { source: *a, dest: *b, data: d.clone() });
                received.push((*a, *b, d.clone()));
            }
            Net::Send(a, b, d) => {
                let s = w.net.lock().unwrap().sender;
                if let Some(s) = s {
                    o.nontrivial();
                    // The engine reuses its buffer straight afterwards.
                    let mut buf = d.clone();
                    (s.send_udp)(s.object, fake::IpPort::of(*a), fake::IpPort::of(*b), buf.as_ptr(), buf.len());
                    buf.fill(0xAA);
                    want_sent.push((senders, *a, *b, d.clone()));
                }
            }
            Net::Clone => nets.push(n.clone()),
            Net::Drop => {
                drop(n);
                nets.pop();
                continue;
            }
        }
        let s = w.net.lock().unwrap();
        ensure_eq!(s.interfaces, ifs);
        ensure_eq!(s.removed, removed);
        ensure_eq!(s.received, received);
        drop(s);
        ensure_eq!(*sent.lock().unwrap(), want_sent);
        let d = dropped.lock().unwrap().clone();
        ensure_eq!(d, (1..senders).collect::<Vec<_>>(), "senders discarded");
    }
    drop(nets);
    ensure_eq!(*dropped.lock().unwrap(), (1..=senders).collect::<Vec<_>>(), "senders discarded");
    done(&w)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Logging {
    filter: u8,
    lines: Vec<(i32, Vec<u8>)>,
}
fn logging() -> impl Strategy<Value = Logging> {
    (0u8..6, vec((0i32..5, vec(1u8..=255, 0..20)), 0..6)).prop_map(|(filter, lines)| Logging { filter, lines })
}
static CAPTURED: Mutex<Vec<(log::Level, String)>> = Mutex::new(vec![]);
struct Capture;
impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().ends_with("webrtc::logging") {
            CAPTURED.lock().unwrap().push((r.level(), r.args().to_string()));
        }
    }
    fn flush(&self) {}
}
fn check_logging(i: &Logging, o: &mut Obs) -> Res {
    use log::{Level, LevelFilter as F};
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| log::set_logger(&Capture).unwrap());
    // webrtc: verbose 0, info 1, warning 2, error 3, none 4
    let filters = [(F::Off, 4), (F::Error, 3), (F::Warn, 2), (F::Info, 1), (F::Debug, 0), (F::Trace, 0)];
    let (f, want) = filters[i.filter as usize];
    webrtc::logging::set_logger(f);
    let (cb, min) = fake::LOGGER.lock().unwrap().ok_or("no logger set")?;
    ensure_eq!(min, want);
    log::set_max_level(F::Trace);
    CAPTURED.lock().unwrap().clear();
    let mut expect = vec![];
    for (sev, line) in &i.lines {
        let c = CString::new(line.clone()).unwrap();
        cb(*sev, c.as_ptr());
        let t = String::from_utf8_lossy(line).into_owned();
        match sev {
            0 if log::STATIC_MAX_LEVEL < Level::Debug => {}
            0 => expect.push((Level::Debug, t)),
            1 => expect.push((Level::Info, t)),
            2 => expect.push((Level::Warn, t)),
            3 => expect.push((Level::Error, t)),
            _ => {}
        }
    }
    log::set_max_level(F::Off);
    o.nontrivial_if(expect.len() > 1);
    ensure_eq!(*CAPTURED.lock().unwrap(), expect);
    Ok(())
}

fn asset_meta() -> ringrtc::protobuf::assets::AssetMetadata {
    Default::default()
}

pub fn n02(r: &mut Runner) {
    no_audio_backend();
    r.facet(
        "calls on a connection",
        "at least three calls reach the engine",
        par(8_000),
        || vec(call(), 1..16),
        |c: &Vec<Call>, o: &mut Obs| check_calls(c, o),
    );
    r.facet(
        "factory and connection set-up",
        "the connection is made",
        par(10_000),
        setup,
        check_setup,
    );
    r.facet(
        "tracks, sources and frames",
        "at least one frame is pushed",
        par(6_000),
        media,
        |c: &Vec<Media>, o: &mut Obs| check_media(c, o),
    );
    r.facet("DRED weights", "DRED is asked for", par(8_000), dred, check_dred);
    r.facet(
        "injected network",
        "the engine sends at least one packet",
        par(6_000),
        net,
        |c: &Vec<Net>, o: &mut Obs| check_net(c, o),
    );
    r.facet("engine log", "at least two lines are passed on", seq(2_000), logging, check_logging);
}

// ---------------------------------------------------------------- N03

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Candidate { sdp: Option<String>, log: String, relay: Option<TransportProtocol> },
    Removed(SocketAddr),
    State(String),
    Route(NetworkRoute),
    Media(usize),
    Audio(usize),
    Video(usize, Option<u32>),
    Frame { demux: u32, meta: String, height: u32, frame: Option<(u32, u32, usize)> },
    CipherSize(bool, usize),
    Encrypt(Vec<u8>, usize),
    PlainSize(u32, bool, usize),
    Decrypt(u32, Vec<u8>, usize),
}
#[derive(Default)]
pub struct Recorder {
    pub events: Mutex<Vec<Ev>>,
    pub err: bool,
    pub size: usize,
    pub fill: Vec<u8>,
    pub streams: Vec<MediaStream>,
    pub audio: Vec<AudioTrack>,
    pub video: Vec<VideoTrack>,
    pub frames: Mutex<Vec<VideoFrame>>,
    pub keep: bool,
    pub touched: u32,
}
impl Recorder {
    fn touch(&mut self) {
        self.touched += 1;
    }
    fn ev(&self, e: Ev) -> anyhow::Result<()> {
        self.events.lock().unwrap().push(e);
        if self.err { Err(anyhow::anyhow!("handler fails")) } else { Ok(()) }
    }
}
impl PeerConnectionObserverTrait for Recorder {
    fn log_id(&self) -> &dyn std::fmt::Display {
        &"recorder"
    }
    fn handle_ice_candidate_gathered(
        &mut self,
        c: IceCandidate,
        sdp: &str,
        relay: Option<TransportProtocol>,
    ) -> anyhow::Result<()> {
        self.ev(Ev::Candidate { sdp: c.v3_sdp(), log: sdp.into(), relay })
    }
    fn handle_ice_candidate_removed(&mut self, a: SocketAddr) -> anyhow::Result<()> {
        self.ev(Ev::Removed(a))
    }
    fn handle_ice_connection_state_changed(&mut self, s: IceConnectionState) -> anyhow::Result<()> {
        self.ev(Ev::State(format!("{s:?}")))
    }
    fn handle_ice_network_route_changed(&mut self, r: NetworkRoute) -> anyhow::Result<()> {
        self.ev(Ev::Route(r))
    }
    fn handle_incoming_media_added(&mut self, s: MediaStream) -> anyhow::Result<()> {
        let p = s.rffi().as_borrowed().as_ptr() as usize;
        if self.keep {
            self.streams.push(s);
        }
        self.ev(Ev::Media(p))
    }
    fn handle_incoming_audio_added(&mut self, t: AudioTrack) -> anyhow::Result<()> {
        let p = t.rffi().as_borrowed().as_ptr() as usize;
        if self.keep {
            self.audio.push(t);
        }
        self.ev(Ev::Audio(p))
    }
    fn handle_incoming_video_added(&mut self, t: VideoTrack, d: Option<u32>) -> anyhow::Result<()> {
        let p = t.rffi().as_borrowed().as_ptr() as usize;
        if self.keep {
            self.video.push(t);
        }
        self.ev(Ev::Video(p, d))
    }
    fn handle_incoming_video_frame(
        &self,
        demux: u32,
        meta: VideoFrameMetadata,
        frame: Option<VideoFrame>,
    ) -> anyhow::Result<()> {
        let f = frame.map(|f| {
            let x = (f.width(), f.height(), 0);
            self.frames.lock().unwrap().push(f);
            x
        });
        self.ev(Ev::Frame { demux, meta: format!("{meta:?}"), height: meta.height, frame: f })
    }
    fn get_media_ciphertext_buffer_size(&mut self, is_audio: bool, n: usize) -> usize {
        let _ = self.ev(Ev::CipherSize(is_audio, n));
        self.size
    }
    fn encrypt_media(&mut self, plain: &[u8], out: &mut [u8]) -> anyhow::Result<usize> {
        self.ev(Ev::Encrypt(plain.to_vec(), out.len()))?;
        let n = self.fill.len().min(out.len());
        out[..n].copy_from_slice(&self.fill[..n]);
        Ok(n)
    }
    fn get_media_plaintext_buffer_size(&mut self, t: u32, is_audio: bool, n: usize) -> usize {
        let _ = self.ev(Ev::PlainSize(t, is_audio, n));
        self.size
    }
    fn decrypt_media(&mut self, t: u32, cipher: &[u8], out: &mut [u8]) -> anyhow::Result<usize> {
        self.ev(Ev::Decrypt(t, cipher.to_vec(), out.len()))?;
        let n = self.fill.len().min(out.len());
        out[..n].copy_from_slice(&self.fill[..n]);
        Ok(n)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Engine {
    Candidate { sdp: Vec<u8>, relayed: bool, protocol: i32 },
    NullCandidate,
    Removed(SocketAddr),
    State(i32),
    Route { adapter: usize, under_vpn: usize, relayed: bool, protocol: i32, remote: bool, text: Vec<u8> },
    Stream,
    Audio,
    Video(u32),
    Frame { demux: u32, w: u32, h: u32, rot: u8, content: bool, rotate_fails: bool },
    CipherSize(bool, u32, u32),
    Encrypt { data: Vec<u8>, cap: u16, fill: Vec<u8>, null: u8 },
    PlainSize(u32, bool, u32, u32),
    Decrypt { track: u32, data: Vec<u8>, cap: u16, fill: Vec<u8>, null: u8 },
    Fail(bool),
    Keep(bool),
}
fn engine() -> impl Strategy<Value = Vec<Engine>> {
    let b = || vec(1u8..=255, 0..40);
    vec(
        prop_oneof![
            3 => (b(), any::<bool>(), 0i32..4).prop_map(|(sdp, relayed, protocol)| Engine::Candidate { sdp, relayed, protocol }),
            1 => Just(Engine::NullCandidate),
            2 => addr().prop_map(Engine::Removed),
            2 => (0i32..8).prop_map(Engine::State),
            2 => (0usize..11, 0usize..11, any::<bool>(), 0i32..4, any::<bool>(), b())
                .prop_map(|(adapter, under_vpn, relayed, protocol, remote, text)| Engine::Route { adapter, under_vpn, relayed, protocol, remote, text }),
            1 => Just(Engine::Stream),
            1 => Just(Engine::Audio),
            2 => prop_oneof![Just(0u32), any::<u32>()].prop_map(Engine::Video),
            4 => ((any::<u32>(), 0u32..3000, 0u32..3000, 0u8..4), any::<bool>(), prop::bool::weighted(0.2))
                .prop_map(|((demux, w, h, rot), content, rotate_fails)| Engine::Frame { demux, w, h, rot, content, rotate_fails }),
            1 => any::<(bool, u32, u32)>().prop_map(|(a, b, c)| Engine::CipherSize(a, b, c)),
            3 => (bytes(40), 0u16..80, bytes(60), 0u8..12).prop_map(|(data, cap, fill, null)| Engine::Encrypt { data, cap, fill, null }),
            1 => any::<(u32, bool, u32, u32)>().prop_map(|(t, a, b, c)| Engine::PlainSize(t, a, b, c)),
            3 => (any::<u32>(), bytes(40), 0u16..80, bytes(60), 0u8..12).prop_map(|(track, data, cap, fill, null)| Engine::Decrypt { track, data, cap, fill, null }),
            1 => any::<bool>().prop_map(Engine::Fail),
            1 => any::<bool>().prop_map(Engine::Keep),
        ],
        1..24,
    )
}
const PROTOCOLS: [TransportProtocol; 4] = [
    TransportProtocol::Udp,
    TransportProtocol::Tcp,
    TransportProtocol::Tls,
    TransportProtocol::Unknown,
];
const ADAPTERS: [(NetworkAdapterType, i32, bool); 11] = [
    (NetworkAdapterType::Unknown, 0, false),
    (NetworkAdapterType::Ethernet, 1, false),
    (NetworkAdapterType::Wifi, 2, false),
    (NetworkAdapterType::Cellular, 4, true),
    (NetworkAdapterType::Vpn, 8, false),
    (NetworkAdapterType::Loopback, 16, false),
    (NetworkAdapterType::Default, 32, false),
    (NetworkAdapterType::Cellular2G, 64, true),
    (NetworkAdapterType::Cellular3G, 128, true),
    (NetworkAdapterType::Cellular4G, 256, true),
    (NetworkAdapterType::Cellular5G, 512, true),
];
const STATES: [&str; 8] =
    ["New", "Checking", "Connected", "Completed", "Failed", "Disconnected", "Closed", "Max"];
const ROTATIONS: [&str; 4] = ["None", "Clockwise90", "Clockwise180", "Clockwise270"];

fn check_engine(ops: &[Engine], o: &mut Obs) -> Res {
    let w = new_local_world();
    let mut rec = Box::new(Recorder::default());
    let obs = PeerConnectionObserver::new(
        webrtc::ptr::Borrowed::from_ptr(&*rec as *const Recorder),
        true,
        true,
        true,
    )
    .map_err(|e| e.to_string())?;
    let obs = obs.into_rffi();
    let (x, cb, _) = fake::pc_observer(w.last(Kind::PcObserver).unwrap());
    ensure_eq!(x as usize, &*rec as *const Recorder as usize);
    // A frame's content and rotation are looked at later.
    let mut frames: Vec<(usize, u32, u32, u8, bool)> = vec![];
    for op in ops {
        rec.events.lock().unwrap().clear();
        let mut want: Vec<Ev> = vec![];
        match op {
            Engine::Candidate { sdp, relayed, protocol } => {
                let c = CString::new(sdp.clone()).unwrap();
                cb_candidate(&cb, x, &c, *relayed, *protocol);
                let t = String::from_utf8_lossy(sdp).into_owned();
                want.push(Ev::Candidate {
                    sdp: Some(t.clone()),
                    log: t,
                    relay: relayed.then_some(PROTOCOLS[*protocol as usize]),
                });
                o.label_if(*relayed, "relayed candidate");
            }
            Engine::NullCandidate => (cb.on_ice_candidate)(x, std::ptr::null()),
            Engine::Removed(a) => {
                (cb.on_ice_candidate_removed)(x, fake::IpPort::of(*a));
                want.push(Ev::Removed(*a));
            }
            Engine::State(s) => {
                (cb.on_ice_connection_change)(x, *s);
                want.push(Ev::State(STATES[*s as usize].into()));
            }
            Engine::Route { adapter, under_vpn, relayed, protocol, remote, text } => {
                let (a, v) = (ADAPTERS[*adapter], ADAPTERS[*under_vpn]);
                let t = CString::new(text.clone()).unwrap();
                (cb.on_ice_network_route_change)(
                    x,
                    fake::RouteC {
                        local_adapter_type: a.1,
                        local_adapter_type_under_vpn: v.1,
                        local_relayed: *relayed,
                        local_relay_protocol: *protocol,
                        remote_relayed: *remote,
                    },
                    t.as_ptr(),
                    t.as_ptr(),
                );
                ensure_eq!(a.0.is_cellular(), a.2);
                want.push(Ev::Route(NetworkRoute {
                    local_adapter_type: a.0,
                    local_adapter_type_under_vpn: v.0,
                    local_relayed: *relayed,
                    local_relay_protocol: PROTOCOLS[*protocol as usize],
                    remote_relayed: *remote,
                }));
            }
            Engine::Stream => {
                let s = fake::make(Kind::Stream, Data::Plain);
                (cb.on_add_stream)(x, s as P);
                want.push(Ev::Media(s));
            }
            Engine::Audio => {
                let s = fake::make(Kind::AudioTrack, Data::Plain);
                (cb.on_add_audio)(x, s as P);
                want.push(Ev::Audio(s));
            }
            Engine::Video(d) => {
                let s = fake::make(Kind::VideoTrack, Data::Plain);
                (cb.on_add_video)(x, s as P, *d);
                want.push(Ev::Video(s, (*d != 0).then_some(*d)));
            }
            Engine::Frame { demux, w: wi, h, rot, content, rotate_fails } => {
                let b = if *content { fake::buffer("rx", *wi, *h, vec![]) } else { 0 };
                let rotation = *rot as i32 * 90;
                (cb.on_video_frame)(x, *demux, fake::FrameMetaC { width: *wi, height: *h, rotation }, b as P);
                want.push(Ev::Frame {
                    demux: *demux,
                    meta: format!(
                        "VideoFrameMetadata {{ width: {wi}, height: {h}, rotation: {} }}",
                        ROTATIONS[*rot as usize]
                    ),
                    height: *h,
                    frame: content.then_some((*wi, *h, 0)),
                });
                if *content {
                    frames.push((b, *wi, *h, *rot, *rotate_fails));
                }
            }
            Engine::CipherSize(a, n, size) => {
                rec.size = *size as usize;
                ensure_eq!((cb.ciphertext_size)(x, *a, *n as usize), *size as usize);
                want.push(Ev::CipherSize(*a, *n as usize));
            }
            Engine::PlainSize(t, a, n, size) => {
                rec.size = *size as usize;
                ensure_eq!((cb.plaintext_size)(x, *t, *a, *n as usize), *size as usize);
                want.push(Ev::PlainSize(*t, *a, *n as usize));
            }
            Engine::Encrypt { data, cap, fill, null } | Engine::Decrypt { data, cap, fill, null, .. } => {
                o.nontrivial();
                rec.fill = fill.clone();
                let cap = *cap as usize;
                let mut out = vec![0x33u8; cap + 4];
                let mut n = 0xBAD5usize;
                let (d, q, s): (*const u8, *mut u8, *mut usize) = (
                    if *null == 0 { std::ptr::null() } else { data.as_ptr() },
                    if *null == 1 { std::ptr::null_mut() } else { out.as_mut_ptr() },
                    if *null == 2 { std::ptr::null_mut() } else { &mut n },
                );
                let ok = match op {
                    Engine::Decrypt { track, .. } => (cb.decrypt)(x, *track, d, data.len(), q, cap, s),
                    _ => (cb.encrypt)(x, d, data.len(), q, cap, s),
                };
                let called = *null > 2;
                if called {
                    want.push(match op {
                        Engine::Decrypt { track, .. } => Ev::Decrypt(*track, data.clone(), cap),
                        _ => Ev::Encrypt(data.clone(), cap),
                    });
                }
                let good = called && !rec.err;
                ensure_eq!(ok, good);
                if good {
                    let k = fill.len().min(cap);
                    ensure_eq!(n, k);
                    ensure_eq!(out[..k], fill[..k]);
                } else {
                    ensure_eq!(n, 0xBAD5);
                }
                ensure_eq!(out[cap..], [0x33u8; 4]);
            }
            Engine::Fail(b) => rec.err = *b,
            Engine::Keep(b) => rec.keep = *b,
        }
        let got = rec.events.lock().unwrap().clone();
        ensure_eq!(got, want);
        w.audit(false)?;
    }
    drop(obs);
    // Received frames, upright.
    let got = std::mem::take(&mut *rec.frames.lock().unwrap());
    ensure_eq!(got.len(), frames.len());
    for (f, (b, wi, h, rot, rotate_fails)) in got.into_iter().zip(frames) {
        let before = w.all(Kind::Buffer).len();
        let f = once(&w, "rotate", rotate_fails, || f.apply_rotation());
        let turned = rot != 0 && !rotate_fails;
        let meta = format!("{:?}", f.metadata());
        if turned {
            o.label("rotated frame");
            let last = w.last(Kind::Buffer).unwrap();
            let r = buffer_rec(last);
            ensure_eq!(r.origin, format!("rx|rot{}", rot as i32 * 90));
            let dims = if rot % 2 == 1 { (h, wi) } else { (wi, h) };
            ensure_eq!((r.width, r.height), dims);
            ensure_eq!((f.width(), f.height()), dims);
            ensure!(meta.ends_with("rotation: None }"), "{meta}");
            ensure!(!at(b).alive(), "the frame before the rotation stays around");
            ensure!(at(last).alive());
            // Once is enough.
            let n = w.all(Kind::Buffer).len();
            let again = f.apply_rotation();
            ensure_eq!(w.all(Kind::Buffer).len(), n);
            drop(again);
        } else {
            ensure_eq!((f.width(), f.height()), (wi, h));
            ensure_eq!(w.all(Kind::Buffer).len(), before);
            ensure!(meta.ends_with(&format!("rotation: {} }}", ROTATIONS[rot as usize])), "{meta}");
            ensure!(at(b).alive());
            // A scaled frame keeps its orientation.
            let s = f.scale(16, 8);
            let m = format!("{:?}", s.metadata());
            ensure!(m.ends_with(&format!("rotation: {} }}", ROTATIONS[rot as usize])), "{m}");
            drop(f);
        }
    }
    drop(rec);
    done(&w)
}
fn cb_candidate(cb: &fake::PcObsCbs, x: P, sdp: &CString, is_relayed: bool, relay_protocol: i32) {
    let c = fake::CandidateC { sdp: sdp.as_ptr() as *const c_char, is_relayed, relay_protocol };
    (cb.on_ice_candidate)(x, &c);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rtp {
    packets: Vec<(u8, u16, u32, u32, Option<Vec<u8>>)>,
    fails: bool,
}
fn rtp_in() -> impl Strategy<Value = Rtp> {
    let small = (any::<u8>(), any::<u16>(), any::<u32>(), any::<u32>(), option::weighted(0.8, bytes(30)));
    let close = (0u8..2, any::<u16>(), any::<u32>(), 0u32..2, option::weighted(0.8, bytes(5)));
    (vec(prop_oneof![small, close], 0..12), prop::bool::weighted(0.03))
        .prop_map(|(packets, fails)| Rtp { packets, fails })
}
#[derive(Default)]
struct RtpRec(Vec<(u8, u16, u32, u32, Vec<u8>)>);
impl RtpObserverTrait for RtpRec {
    fn handle_rtp_received(&mut self, h: rtp::Header, d: &[u8]) {
        self.0.push((h.pt, h.seqnum, h.timestamp, h.ssrc, d.to_vec()));
    }
}
fn check_rtp(i: &Rtp, o: &mut Obs) -> Res {
    let w = new_local_world();
    let rec = Box::new(RtpRec::default());
    let r = once(&w, "rtp_observer", i.fails, || {
        RtpObserver::new(webrtc::ptr::Borrowed::from_ptr(&*rec as *const RtpRec))
    });
    ensure_eq!(r.is_err(), i.fails);
    let Ok(r) = r else { return done(&w) };
    let r = r.into_rffi();
    let p = w.last(Kind::RtpObserver).unwrap();
    let (peer_ptr, peer) = pc();
    peer.set_rtp_packet_observer(r.borrow());
    ensure_eq!(at(peer_ptr).pc(|s| s.rtp_observer), p);
    let (x, cbs) = at(p)
        .with(|d| match d {
            Data::RtpObserver { observer, cbs } => (*observer, *cbs),
            _ => unreachable!(),
        })
        .unwrap();
    ensure_eq!(x, &*rec as *const RtpRec as usize);
    let mut want = vec![];
    for (pt, seq, ts, ssrc, data) in &i.packets {
        match data {
            None => (cbs.on_rtp)(x as P, *pt, *seq, *ts, *ssrc, std::ptr::null(), 5),
            Some(d) => {
                let mut d2 = d.clone();
                (cbs.on_rtp)(x as P, *pt, *seq, *ts, *ssrc, d2.as_ptr(), d2.len());
                d2.fill(0);
                want.push((*pt, *seq, *ts, *ssrc, d.clone()));
            }
        }
    }
    ensure_eq!(rec.0, want);
    // Headers of one stream merge into the newest; others leave it alone.
    if let Some(f) = want.first() {
        let h = |x: &(u8, u16, u32, u32, Vec<u8>)| rtp::Header { pt: x.0, seqnum: x.1, timestamp: x.2, ssrc: x.3 };
        let mut head = h(f);
        head.extend(want.iter().map(h));
        let last = want.iter().rfind(|x| x.0 == f.0 && x.3 == f.3).unwrap();
        o.nontrivial_if(want.iter().filter(|x| x.0 == f.0 && x.3 == f.3).count() > 1);
        ensure_eq!((head.pt, head.seqnum, head.timestamp, head.ssrc), (f.0, last.1, last.2, f.3));
    }
    peer.set_rtp_packet_observer(webrtc::ptr::Borrowed::null());
    ensure_eq!(at(peer_ptr).pc(|s| s.rtp_observer), 0);
    drop(peer);
    drop(r);
    done(&w)
}

pub fn n03(r: &mut Runner) {
    no_audio_backend();
    r.facet(
        "events of a connection",
        "at least one frame is encrypted or decrypted",
        par(12_000),
        engine,
        |c: &Vec<Engine>, o: &mut Obs| check_engine(c, o),
    );
    r.facet("RTP data", "two packets of one stream arrive", par(12_000), rtp_in, check_rtp);
}

// ---------------------------------------------------------------- N04

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Life {
    Factory { injectable: bool, fails: bool },
    Wrapped,
    CloneFactory(usize),
    DropFactory(usize),
    Audio(usize, bool),
    CloneAudio(usize),
    DropAudio(usize),
    Source(usize, bool),
    CloneSource(usize),
    DropSource(usize),
    Track(usize, usize, bool),
    CloneTrack(usize),
    DropTrack(usize),
    Connect { factory: usize, audio: usize, video: Option<usize>, fails: bool, obs_fails: bool },
    DropConnection(usize, bool),
    Gather(usize, bool),
    Share(usize, usize, bool),
    DropGatherer(usize),
    Negotiate { pc: usize, offer: bool, fails: bool, take: bool, set: Option<bool>, set_fails: bool },
    Frame(u32, u32),
    Push(usize, usize),
    DropFrame(usize),
    Transform(usize, bool),
    Deliver { pc: usize, what: u8, keep: bool, err: bool, content: bool },
    Net(usize),
    SetSender(usize),
    DropNet(usize),
}
fn life() -> impl Strategy<Value = Vec<Life>> {
    let u = || any::<usize>();
    let f = || prop::bool::weighted(0.15);
    vec(
        prop_oneof![
            3 => (any::<bool>(), f()).prop_map(|(injectable, fails)| Life::Factory { injectable, fails }),
            1 => Just(Life::Wrapped),
            1 => u().prop_map(Life::CloneFactory),
            2 => u().prop_map(Life::DropFactory),
            3 => (u(), f()).prop_map(|(a, b)| Life::Audio(a, b)),
            1 => u().prop_map(Life::CloneAudio),
            1 => u().prop_map(Life::DropAudio),
            2 => (u(), f()).prop_map(|(a, b)| Life::Source(a, b)),
            1 => u().prop_map(Life::CloneSource),
            1 => u().prop_map(Life::DropSource),
            3 => (u(), u(), f()).prop_map(|(a, b, c)| Life::Track(a, b, c)),
            1 => u().prop_map(Life::CloneTrack),
            1 => u().prop_map(Life::DropTrack),
            4 => (u(), u(), option::of(u()), f(), f())
                .prop_map(|(factory, audio, video, fails, obs_fails)| Life::Connect { factory, audio, video, fails, obs_fails }),
            2 => (u(), any::<bool>()).prop_map(|(a, b)| Life::DropConnection(a, b)),
            1 => (u(), f()).prop_map(|(a, b)| Life::Gather(a, b)),
            1 => (u(), u(), f()).prop_map(|(a, b, c)| Life::Share(a, b, c)),
            1 => u().prop_map(Life::DropGatherer),
            3 => (u(), any::<bool>(), f(), any::<bool>(), option::of(any::<bool>()), f())
                .prop_map(|(pc, offer, fails, take, set, set_fails)| Life::Negotiate { pc, offer, fails, take, set, set_fails }),
            2 => (0u32..8, 0u32..8).prop_map(|(a, b)| Life::Frame(a * 2, b * 2)),
            2 => (u(), u()).prop_map(|(a, b)| Life::Push(a, b)),
            1 => u().prop_map(Life::DropFrame),
            1 => (u(), any::<bool>()).prop_map(|(a, b)| Life::Transform(a, b)),
            4 => (u(), 0u8..4, any::<bool>(), f(), any::<bool>())
                .prop_map(|(pc, what, keep, err, content)| Life::Deliver { pc, what, keep, err, content }),
            1 => u().prop_map(Life::Net),
            1 => u().prop_map(Life::SetSender),
            1 => u().prop_map(Life::DropNet),
        ],
        1..50,
    )
    .prop_flat_map(|rest| {
        // Mostly start with what a connection needs.
        (prop::bool::weighted(0.8), Just(rest)).prop_map(|(prepared, mut rest)| {
            if prepared {
                rest.splice(
                    0..0,
                    [
                        Life::Factory { injectable: true, fails: false },
                        Life::Audio(0, false),
                        Life::Source(0, false),
                        Life::Track(0, 0, false),
                    ],
                );
            }
            rest
        })
    })
}

fn check_life(ops: &[Life], o: &mut Obs) -> Res {
    let w = new_local_world();
    let dropped: Arc<Mutex<Vec<usize>>> = Default::default();
    let mut senders = 0;
    let mut factories: Vec<PeerConnectionFactory> = vec![];
    let mut audio: Vec<AudioTrack> = vec![];
    let mut sources: Vec<VideoSource> = vec![];
    let mut tracks: Vec<VideoTrack> = vec![];
    let mut gatherers: Vec<IceGatherer> = vec![];
    let mut frames: Vec<VideoFrame> = vec![];
    let mut nets = vec![];
    // The connection goes before the observer it reports to.
    struct Conn {
        pc: Option<PeerConnection>,
        obs: usize,
        rec: Box<Recorder>,
    }
    let mut conns: Vec<Conn> = vec![];
    macro_rules! pick {
        ($v:expr, $n:expr) => {
            if $v.is_empty() {
                continue;
            } else {
                let k = $n % $v.len();
                &mut $v[k]
            }
        };
    }
    macro_rules! remove {
        ($v:expr, $n:expr) => {
            if $v.is_empty() {
                continue;
            } else {
                let k = $n % $v.len();
                $v.remove(k)
            }
        };
    }
    for op in ops {
        match op {
            Life::Factory { injectable, fails } => {
                let f = once(&w, "factory", *fails, || {
                    PeerConnectionFactory::new(&Default::default(), *injectable, "", None)
                });
                ensure_eq!(f.is_err(), *fails);
                factories.extend(f);
            }
            Life::Wrapped => {
                // As an app that made its own factory would.
                let native = fake::make(Kind::Factory, Data::Plain);
                let a = webrtc::Arc::from_owned(unsafe { webrtc::ptr::OwnedRc::from_ptr(native as *const _) });
                let f = unsafe { PeerConnectionFactory::from_native_factory(a) };
                factories.push(f);
            }
            Life::CloneFactory(n) => {
                let f = pick!(factories, *n).clone();
                factories.push(f);
            }
            Life::DropFactory(n) => drop(remove!(factories, *n)),
            Life::Audio(n, fails) => {
                let f = pick!(factories, *n);
                let t = once(&w, "audio_track", *fails, || f.create_outgoing_audio_track());
                ensure_eq!(t.is_err(), *fails);
                audio.extend(t);
            }
            Life::CloneAudio(n) => {
                let f = pick!(audio, *n).clone();
                audio.push(f);
            }
            Life::DropAudio(n) => drop(remove!(audio, *n)),
            Life::Source(n, fails) => {
                let f = pick!(factories, *n);
                let t = once(&w, "video_source", *fails, || f.create_outgoing_video_source());
                ensure_eq!(t.is_err(), *fails);
                sources.extend(t);
            }
            Life::CloneSource(n) => {
                let f = pick!(sources, *n).clone();
                sources.push(f);
            }
            Life::DropSource(n) => drop(remove!(sources, *n)),
            Life::Track(n, s, fails) => {
                let f = pick!(factories, *n);
                let s = pick!(sources, *s);
                let t = once(&w, "video_track", *fails, || f.create_outgoing_video_track(s));
                ensure_eq!(t.is_err(), *fails);
                tracks.extend(t);
            }
            Life::CloneTrack(n) => {
                let f = pick!(tracks, *n).clone();
                tracks.push(f);
            }
            Life::DropTrack(n) => drop(remove!(tracks, *n)),
            Life::Connect { factory, audio: a, video, fails, obs_fails } => {
                let f = pick!(factories, *factory).clone();
                // A connection only carries tracks of its own factory.
                let home = f.rffi().as_borrowed().as_ptr() as usize;
                let mut mine: Vec<_> = audio
                    .iter()
                    .filter(|t| fake::factory_of(t.rffi().as_borrowed().as_ptr() as usize) == home)
                    .cloned()
                    .collect();
                let a = pick!(mine, *a).clone();
                drop(mine);
                let mut mine: Vec<usize> = (0..tracks.len())
                    .filter(|k| {
                        fake::factory_of(tracks[*k].rffi().as_borrowed().as_ptr() as usize) == home
                    })
                    .collect();
                // The app may or may not keep its own hold on the video track.
                let v = match video {
                    Some(n) if !mine.is_empty() => {
                        let k = *pick!(mine, *n);
                        if n % 3 == 0 { Some(tracks.remove(k)) } else { Some(tracks[k].clone()) }
                    }
                    _ => None,
                };
                let rec = Box::new(Recorder::default());
                let obs = once(&w, "pc_observer", *obs_fails, || {
                    PeerConnectionObserver::new(
                        webrtc::ptr::Borrowed::from_ptr(&*rec as *const Recorder),
                        false,
                        true,
                        true,
                    )
                });
                ensure_eq!(obs.is_err(), *obs_fails);
                let Ok(obs) = obs else { continue };
                let obs_ptr = w.last(Kind::PcObserver).unwrap();
                let pc = once(&w, "peer_connection", *fails, || {
                    f.create_peer_connection(
                        obs,
                        RffiPeerConnectionKind::Direct,
                        &Default::default(),
                        1,
                        &[],
                        a,
                        v,
                    )
                });
                ensure_eq!(pc.is_err(), *fails);
                match pc {
                    Err(_) => ensure!(!at(obs_ptr).alive(), "observer outlives the failed connection"),
                    Ok(pc) => {
                        o.nontrivial();
                        conns.push(Conn { pc: Some(pc), obs: obs_ptr, rec });
                    }
                }
            }
            Life::DropConnection(n, close) => {
                let mut c = remove!(conns, *n);
                let pc = c.pc.take().unwrap();
                if *close {
                    pc.close();
                }
                drop(pc);
                ensure!(!at(c.obs).alive(), "observer stays registered after its connection");
                drop(c);
            }
            Life::Gather(n, fails) => {
                let c = pick!(conns, *n);
                let g = once(&w, "create_gatherer", *fails, || {
                    c.pc.as_ref().unwrap().create_shared_ice_gatherer()
                });
                ensure_eq!(g.is_err(), *fails);
                gatherers.extend(g);
            }
            Life::Share(n, g, fails) => {
                let c = pick!(conns, *n);
                let g = pick!(gatherers, *g);
                let r = once(&w, "use_gatherer", *fails, || {
                    c.pc.as_ref().unwrap().use_shared_ice_gatherer(g)
                });
                ensure_eq!(r.is_err(), *fails);
            }
            Life::DropGatherer(n) => drop(remove!(gatherers, *n)),
            Life::Negotiate { pc, offer, fails, take, set, set_fails } => {
                let c = pick!(conns, *pc);
                let pc = c.pc.as_ref().unwrap();
                let csd = create_csd_observer(None);
                once(&w, if *offer { "create_offer" } else { "create_answer" }, *fails, || {
                    if *offer { pc.create_offer(&csd) } else { pc.create_answer(&csd) }
                });
                if *take {
                    let d = csd.get_result();
                    ensure_eq!(d.is_err(), *fails);
                    if let (Ok(d), Some(local)) = (d, set) {
                        let ssd = create_ssd_observer();
                        once(&w, if *local { "set_local" } else { "set_remote" }, *set_fails, || {
                            if *local {
                                pc.set_local_description(&ssd, d)
                            } else {
                                pc.set_remote_description(&ssd, d)
                            }
                        });
                        ensure_eq!(ssd.get_result().is_err(), *set_fails);
                    }
                }
            }
            Life::Frame(wi, h) => {
                let n = (wi * h * 4) as usize;
                frames.push(VideoFrame::copy_from_slice(*wi, *h, VideoPixelFormat::Rgba, &vec![1; n]));
            }
            Life::Push(s, n) => {
                let s = pick!(sources, *s);
                s.push_frame(remove!(frames, *n));
            }
            Life::DropFrame(n) => drop(remove!(frames, *n)),
            Life::Transform(n, scale) => {
                let f = remove!(frames, *n);
                if *scale {
                    let s = f.scale(4, 4);
                    frames.push(s);
                    frames.push(f);
                } else {
                    frames.push(f.apply_rotation());
                }
            }
            Life::Deliver { pc, what, keep, err, content } => {
                let c = pick!(conns, *pc);
                let (x, cb, _) = fake::pc_observer(c.obs);
                c.rec.keep = *keep;
                c.rec.err = *err;
                match what {
                    0 => (cb.on_add_stream)(x, fake::make(Kind::Stream, Data::Plain) as P),
                    1 => (cb.on_add_audio)(x, fake::make(Kind::AudioTrack, Data::Plain) as P),
                    2 => (cb.on_add_video)(x, fake::make(Kind::VideoTrack, Data::Plain) as P, 7),
                    _ => {
                        let b = if *content { fake::buffer("rx", 8, 4, vec![]) } else { 0 };
                        (cb.on_video_frame)(x, 3, fake::FrameMetaC { width: 8, height: 4, rotation: 90 }, b as P);
                        frames.append(&mut c.rec.frames.lock().unwrap());
                    }
                }
            }
            Life::Net(n) => {
                if let Some(n) = pick!(factories, *n).injectable_network() {
                    nets.push(n);
                }
            }
            Life::SetSender(n) => {
                senders += 1;
                let d = CountDrop(dropped.clone(), senders);
                let n = if nets.is_empty() {
                    senders -= 1;
                    std::mem::forget(d);
                    continue;
                } else {
                    let k = n % nets.len();
                    &nets[k]
                };
                n.set_sender(Box::new(move |_: Packet| {
                    let _ = &d;
                }));
            }
            Life::DropNet(n) => drop(remove!(nets, *n)),
        }
        w.audit(false)?;
    }
    // Everything goes, in an order that depends on the history.
    if ops.len() % 2 == 0 {
        drop(factories);
        drop(nets);
        drop(audio);
        drop(sources);
        drop(tracks);
        for mut c in conns {
            c.pc.take();
        }
        drop(gatherers);
        drop(frames);
    } else {
        drop(frames);
        drop(gatherers);
        for mut c in conns.into_iter().rev() {
            c.pc.take();
        }
        drop(tracks);
        drop(sources);
        drop(audio);
        drop(factories);
        drop(nets);
    }
    let mut d = dropped.lock().unwrap().clone();
    d.sort();
    ensure_eq!(d, (1..=senders).collect::<Vec<_>>(), "network senders discarded");
    done(&w)
}

pub fn n04(r: &mut Runner) {
    no_audio_backend();
    r.facet(
        "histories of objects",
        "at least one connection is made",
        par(30_000),
        life,
        |c: &Vec<Life>, o: &mut Obs| check_life(c, o),
    );
}
