//! What a group call tells of how long one speaks and of too little bandwidth
//! for video (C28). Real time; the script says when what changes.
use std::{
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use harness::*;
use prost::Message as _;
use proptest::{collection::vec, prelude::*, sample::select};
use rand::{Rng, SeedableRng, rngs::StdRng};
use ringrtc::{
    common::{CallConfig, CallId, CallMediaType},
    core::{
        group_call::{GroupCallKind, JoinState, SpeechEvent},
        signaling::SenderStatus,
    },
    lite::sfu::PeekInfo,
    protobuf::group_call::{
        SfuToDevice,
        sfu_to_device::{
            DeviceJoinedOrLeft, PeekInfo as WirePeek, peek_info::PeekDeviceInfo as WireDevice,
        },
    },
    webrtc::{self, media::MediaStream, peer_connection_observer::IceConnectionState as Ice},
};
use serde::{Deserialize, Serialize};

use crate::{
    call_props::rtp_message,
    group::*,
    plat::{Device, Rec, answer, received_answer},
};

const ME: u32 = 16;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Level(u16),
    Mute(bool),
    Bandwidth(u32),
    Others(u8),
    /// The connection: whether there is one.
    Link(bool),
    Leave,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// when (in ms), what
    acts: Vec<(u16, Act)>,
    more: u16,
}

fn level(loud: bool) -> BoxedStrategy<u16> {
    if loud {
        prop_oneof![2 => Just(1001u16), 3 => 1001..=u16::MAX, 2 => 1001..4000u16].boxed()
    } else {
        prop_oneof![2 => Just(1000u16), 2 => Just(0), 3 => 0..=1000u16].boxed()
    }
}
#[derive(Clone, Debug)]
enum Sound {
    Loud(u16),
    Quiet(u16),
    Muted(u16),
}
fn sounds() -> impl Strategy<Value = Vec<(u16, Vec<Act>)>> {
    let loud = || (select(vec![700u16, 1500, 2700, 4000, 6200, 6200, 7000]), level(true).prop_map(Sound::Loud));
    let not = prop_oneof![3 => level(false).prop_map(Sound::Quiet), 2 => (level(true)).prop_map(Sound::Muted)];
    let pause = (select(vec![500u16, 1200, 2200, 2200, 4000, 4000, 5000]), not);
    (prop::bool::weighted(0.7), vec((loud(), pause), 1..6)).prop_map(|(known, v)| {
        let mut t = 0;
        let mut said = known;
        let mut acts = vec![];
        if known {
            acts.push((0, vec![Act::Mute(false)]));
        }
        let mut muted = false;
        for (a, b) in v {
            for (d, s) in [a, b] {
                acts.push((
                    t,
                    match s {
                        Sound::Loud(l) if muted => {
                            muted = false;
                            said = true;
                            vec![Act::Level(l), Act::Mute(false)]
                        }
                        Sound::Loud(l) | Sound::Quiet(l) => vec![Act::Level(l)],
                        Sound::Muted(l) => {
                            muted = true;
                            said = true;
                            vec![Act::Mute(true), Act::Level(l)]
                        }
                    },
                ));
                t += d;
            }
        }
        let _ = said;
        acts
    })
}
fn rates() -> impl Strategy<Value = Vec<(u16, Vec<Act>)>> {
    let bw = prop_oneof![
        3 => select(vec![0u32, 10_000, 69_999]),
        3 => select(vec![70_000u32, 75_000, 80_000]),
        3 => select(vec![80_001u32, 100_000, 2_000_000]),
    ];
    let first = prop_oneof![2 => select(vec![70_000u32, 75_000, 90_000]), 1 => Just(69_999u32), 1 => Just(20_000)];
    let d = select(vec![2500u16, 2500, 3300, 4500, 7000]);
    let others = prop_oneof![6 => Just(None), 2 => (0..3u8).prop_map(|n| Some(Act::Others(n))), 1 => Just(Some(Act::Link(false))), 1 => Just(Some(Act::Link(true)))];
    (first, vec((d, bw, others, 300..2000u16), 1..6), prop::bool::weighted(0.85), prop::bool::weighted(0.9)).prop_map(|(first, v, link_first, there)| {
        let mut acts = vec![(0, vec![Act::Bandwidth(first)])];
        if link_first {
            acts.push((0, vec![Act::Link(true)]));
        }
        if there {
            acts.push((100, vec![Act::Others(1)]));
        }
        if !link_first {
            acts.push((600, vec![Act::Link(true)]));
        }
        let mut t = 0;
        for (d, bw, others, apart) in v {
            t += d;
            acts.push((t, vec![Act::Bandwidth(bw)]));
            if let Some(o) = others {
                acts.push((t + apart, vec![o]));
            }
        }
        acts
    })
}
pub fn cases() -> impl Strategy<Value = Case> {
    (sounds(), rates(), prop::option::weighted(0.1, 3000..15_000u16)).prop_map(|(a, b, leave)| {
        let mut acts: Vec<(u16, Act)> = a.into_iter().chain(b).flat_map(|(t, v)| v.into_iter().map(move |a| (t, a))).collect();
        acts.extend(leave.map(|t| (t, Act::Leave)));
        acts.sort_by_key(|a| a.0);
        acts.retain(|a| a.0 <= 19_000);
        // Nothing comes after the end.
        if let Some(n) = acts.iter().position(|a| a.1 == Act::Leave) {
            acts.truncate(n + 1);
        }
        Case { acts, more: 4200 }
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Said {
    LowerHand,
    Stopped,
    Low,
    Recovered,
}
type Told = Vec<(f64, Said)>;

/// One way in which it may go, given when the client looks.
fn foresee(acts: &[(f64, Act)], end: f64, rng: &mut StdRng) -> (Told, Told) {
    let (mut level, mut muted, mut bandwidth, mut others, mut link) = (0u16, None, 0u32, 0u8, false);
    let mut left = false;
    // since when one speaks; since when it's quiet
    let (mut spell, mut quiet): (Option<f64>, Option<f64>) = (None, None);
    let mut last = None;
    let mut speech = vec![];
    let mut low = vec![];
    enum Look {
        Never,
        At(f64),
        AfterLow(f64, f64),
        Done,
    }
    let mut look = Look::Never;
    let mut t = -rng.gen_range(0.0..0.25);
    let period = 0.2 + rng.gen_range(0.0..0.015);
    let mut acts = acts.iter().map(|(t, a)| (*t - rng.gen_range(0.0..0.02), *a)).collect::<Vec<_>>().into_iter().peekable();
    while t < end {
        while let Some((at, a)) = acts.next_if(|a| a.0 <= t) {
            match a {
                Act::Level(l) => level = l,
                Act::Mute(m) => muted = Some(m),
                Act::Bandwidth(b) => bandwidth = b,
                Act::Link(l) => link = l,
                Act::Others(n) => {
                    if n == 0 && others > 0 && matches!(look, Look::At(_)) {
                        look = Look::Never;
                    }
                    if n > 0 && others == 0 && matches!(look, Look::Never) {
                        look = Look::At(at + 1.0);
                    }
                    others = n;
                }
                Act::Leave => left = true,
            }
        }
        if t >= 0.0 && !left {
            if level > 1000 && muted == Some(false) {
                quiet = None;
                spell = spell.or(Some(t));
            } else {
                quiet = quiet.or(Some(t));
                if t - quiet.unwrap() >= 3.0 {
                    spell = None;
                }
            }
            let spoken = spell.map(|s| t - s - quiet.map_or(0.0, |q| t - q));
            let say = match spoken {
                Some(d) if d >= 5.0 => Some(Said::LowerHand),
                None if last.is_some() => Some(Said::Stopped),
                _ => None,
            };
            if let Some(say) = say
                && last != Some(say)
            {
                last = Some(say);
                speech.push((t, say));
            }
        }
        match look {
            Look::At(_) if !link => look = Look::At(t + 10.0),
            Look::At(at) if t >= at => {
                if bandwidth < 70_000 {
                    low.push((t, Said::Low));
                    look = Look::AfterLow(t, t + 1.0);
                } else {
                    look = Look::At(t + 1.0);
                }
            }
            Look::AfterLow(since, next) if t >= next && t >= since + 6.0 => {
                if bandwidth > 80_000 {
                    low.push((t, Said::Recovered));
                    look = Look::Done;
                } else {
                    look = Look::AfterLow(since, t + 1.0);
                }
            }
            _ => {}
        }
        t += period;
        if rng.gen_bool(0.2) {
            t += rng.gen_range(0.0..0.15);
        }
    }
    (speech, low)
}

pub fn run(c: &Case, o: &mut Obs) -> Res {
    let told: Arc<Mutex<Vec<(Instant, Said)>>> = Default::default();
    let t = told.clone();
    let sink: Sink = Arc::new(move |e: &Ev| {
        let s = match e {
            Ev::Speech(SpeechEvent::LowerHandSuggestion) => Said::LowerHand,
            Ev::Speech(SpeechEvent::StoppedSpeaking) => Said::Stopped,
            Ev::LowBandwidth(false) => Said::Low,
            Ev::LowBandwidth(true) => Said::Recovered,
            _ => return,
        };
        t.lock().unwrap().push((Instant::now(), s));
    });
    let start = Start { kind: GroupCallKind::SignalGroup, me: ME, uuid: Some(user(0)), ring: None, link: None };
    let rig = Rig::with_sink(start, Some(sink));
    let cl = rig.client.clone();
    rig.pc.group(|g| g.bandwidth_estimate_bps = 200_000);
    cl.connect();
    cl.set_membership_proof(b"proof".to_vec());
    cl.join();
    ensure!(rig.sync(), "the client has stopped");
    let dh = *x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from([3; 32])).as_bytes();
    cl.on_sfu_client_join_attempt_completed(Ok(rig.joined(JoinState::Joined(ME), None, "1111111111111111", dh, false)));
    ensure!(rig.sync(), "the client has stopped");
    let zero = Instant::now();
    let mut did = vec![];
    let mut ts = 0;
    let mut link = false;
    let mut connected = false;
    let answer = || {
        while let Some(cb) = rig.asked.lock().unwrap().peeks.pop_front() {
            cb(Ok(PeekInfo::default()));
        }
    };
    // Sleeps until then; false if this can't be relied on.
    let until = |ms: u64| -> bool {
        loop {
            let now = zero.elapsed();
            let end = Duration::from_millis(ms);
            if now >= end {
                return now - end < Duration::from_millis(150);
            }
            let d = (end - now).min(Duration::from_millis(40));
            let a = Instant::now();
            std::thread::sleep(d);
            if a.elapsed() > d + Duration::from_millis(150) {
                return false;
            }
        }
    };
    for (at, act) in &c.acts {
        if !until(*at as u64) {
            o.label("slow");
            return Ok(());
        }
        answer();
        let mut act = *act;
        match act {
            Act::Level(l) => rig.pc.group(|g| g.audio_level = l),
            Act::Mute(m) => cl.set_outgoing_audio_muted(m),
            Act::Bandwidth(b) => rig.pc.group(|g| g.bandwidth_estimate_bps = b),
            Act::Others(n) => {
                ts += 1;
                let devices = std::iter::once((ME, 0)).chain((0..n).map(|d| (32 + 16 * d as u32, 1 + d)));
                let peek_info = WirePeek {
                    era_id: Some("1111111111111111".into()),
                    max_devices: Some(40),
                    devices: devices.map(|(d, u)| WireDevice { demux_id: Some(d), opaque_user_id: Some(opaque(u)) }).collect(),
                    ..Default::default()
                };
                let m = SfuToDevice { device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: Some(peek_info) }), ..Default::default() };
                rig.rtp(1, ts, &m.encode_to_vec());
            }
            Act::Link(on) => {
                let s = if on { Ice::Connected } else { Ice::Disconnected };
                // Before it's up for the first time it can't break.
                if on || connected {
                    connected |= on;
                    link = on;
                    cl.verif_observer(move |o| {
                        let _ = o.handle_ice_connection_state_changed(s);
                    });
                }
                act = Act::Link(link);
            }
            Act::Leave => cl.leave(),
        }
        ensure!(rig.sync(), "the client has stopped");
        did.push((zero.elapsed().as_secs_f64(), act));
    }
    let last = c.acts.last().map_or(0, |a| a.0) as u64;
    let reliable = until(last + c.more as u64);
    answer();
    let end = zero.elapsed().as_secs_f64();
    let told: Told = told.lock().unwrap().iter().map(|(t, s)| (t.saturating_duration_since(zero).as_secs_f64(), *s)).collect();
    if !reliable {
        o.label("slow");
        return Ok(());
    }
    let is_speech = |s: &Said| matches!(s, Said::LowerHand | Said::Stopped);
    let (speech, low): (Told, Told) = told.iter().partition(|t| is_speech(&t.1));
    let mut rng = StdRng::seed_from_u64(1);
    let ways: Vec<_> = (0..600).map(|_| {
        let end = end - rng.gen_range(0.0..0.4);
        foresee(&did, end, &mut rng)
    }).collect();
    let like = |a: &Told, b: &Told| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.1 == b.1 && (a.0 - b.0).abs() < 0.7);
    for (t, s) in &told {
        let _ = t;
        o.label(match s {
            Said::LowerHand => "spoke for long",
            Said::Stopped => "stopped speaking",
            Said::Low => "too little bandwidth",
            Said::Recovered => "enough bandwidth again",
        });
    }
    o.nontrivial_if(!told.is_empty());
    ensure!(ways.iter().any(|w| like(&w.0, &speech)), "of speaking, the app was told {speech:?}; expected {:?}; {did:?}", ways[0].0);
    ensure!(ways.iter().any(|w| like(&w.1, &low)), "of bandwidth, the app was told {low:?}; expected {:?}; {did:?}", ways[0].1);
    Ok(())
}

/// In a direct call: things that change, and the ticks in between.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Ticks(u8),
    Accept,
    Video(Option<bool>),
    Bandwidth(u32),
    Level(u16),
    Link(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Direct {
    interval: Option<u16>,
    steps: Vec<Step>,
}
pub fn direct_cases() -> impl Strategy<Value = Direct> {
    let bw = select(vec![0u32, 30_000, 59_999, 59_999, 60_000, 65_000, 70_000, 70_001, 90_000, 90_000]);
    let step = prop_oneof![
        10 => prop_oneof![3 => 1..6u8, 3 => Just(5), 2 => Just(30), 2 => 1..40u8, 1 => 48..60u8].prop_map(Step::Ticks),
        2 => Just(Step::Accept),
        3 => prop::option::weighted(0.9, prop::bool::weighted(0.7)).prop_map(Step::Video),
        6 => bw.prop_map(Step::Bandwidth),
        2 => any::<u16>().prop_map(Step::Level),
        2 => any::<bool>().prop_map(Step::Link),
    ];
    (prop::option::of(select(vec![600u16, 700, 1000, 1100, 2600])), prop::bool::weighted(0.7), vec(step, 4..40)).prop_map(|(interval, begun, mut steps)| {
        if begun {
            steps.splice(0..0, [Step::Accept, Step::Video(Some(true))]);
        }
        Direct { interval, steps }
    })
}
pub fn run_direct(c: &Direct, o: &mut Obs) -> Res {
    let mut d = Device::new();
    let id = 9;
    let cid = CallId::new(id);
    let _ = d.cm.create_outgoing_call("peer".into(), cid, CallMediaType::Video, 1);
    d.flush()?;
    let interval = c.interval.map(|i| Duration::from_millis(i as u64));
    let _ = d.cm.proceed(cid, "ctx".into(), CallConfig::default(), interval);
    ensure!(d.sh.wait(LONG, |l| l.iter().any(|r| matches!(r, Rec::SendOffer { .. }))), "the offer wasn't sent");
    let _ = d.cm.message_sent(cid);
    let _ = d.cm.received_answer("peer".into(), cid, received_answer(answer(1), 1));
    d.settle()?;
    let Some(mut k) = d.conn(1) else { fail!("there's no connection") };
    let Some(pc) = d.pc(id, 1) else { fail!("there's no peer connection") };
    pc.group(|g| g.bandwidth_estimate_bps = 100_000);
    // WebRTC reports the remote's media as soon as there is a connection.
    let _ = k.inject_received_incoming_media(MediaStream::new(webrtc::Arc::null()));
    d.settle()?;
    let _ = k.inject_ice_connected();
    d.settle()?;
    let (mut accepted, mut link, mut video, mut bandwidth, mut level) = (false, true, false, 100_000u32, 0u16);
    let mut n = 0u64;
    let mut began = None;
    enum Look {
        Low(u64),
        Enough(u64),
        Done,
    }
    let mut look = Look::Low(0);
    let mut ok = || -> Res {
        for (i, s) in c.steps.iter().enumerate() {
            let (seen, sent) = (d.sh.len(), d.sh.lock().rtp.len());
            let mut want = vec![];
            let mut resent = 0;
            match *s {
                Step::Ticks(m) => {
                    for _ in 0..m {
                        n += 1;
                        ensure!(k.tick(n).is_ok(), "step {i}: the tick failed");
                        if c.interval.is_some_and(|ms| n % (ms as u64 / 200) == 0) {
                            want.push(format!("levels {level} 0"));
                        }
                        if n % 5 != 0 {
                            continue;
                        }
                        resent += 1;
                        match look {
                            Look::Low(_) if video && !(accepted && link) => look = Look::Low(n + 50),
                            Look::Low(after) if video && n > after && bandwidth < 60_000 => {
                                want.push("too little bandwidth".into());
                                look = Look::Enough(n + 30);
                            }
                            Look::Enough(after) if n >= after && bandwidth > 70_000 => {
                                want.push("enough bandwidth again".into());
                                look = Look::Done;
                            }
                            _ => {}
                        }
                    }
                }
                Step::Accept => {
                    if accepted || !link {
                        continue;
                    }
                    k.inject_received_via_rtp_data(&rtp_message(|m| m.accepted = Some(ringrtc::protobuf::rtp_data::Accepted { id: Some(id) })));
                    accepted = true;
                    began = Some(Instant::now());
                }
                Step::Video(v) => {
                    let status = SenderStatus { video_enabled: v, sharing_screen: None, audio_enabled: Some(i % 2 == 0) };
                    let _ = k.update_sender_status(status);
                    if accepted || link {
                        video = v.unwrap_or(video);
                    }
                }
                Step::Bandwidth(b) => {
                    pc.group(|g| g.bandwidth_estimate_bps = b);
                    bandwidth = b;
                }
                Step::Level(l) => {
                    pc.group(|g| g.audio_level = l);
                    level = l;
                }
                Step::Link(on) => {
                    let _ = if on { k.inject_ice_connected() } else { k.inject_ice_disconnected() };
                    link = on;
                }
            }
            d.settle()?;
            // Before its own timer has anything to say.
            if began.is_some_and(|b| b.elapsed() > Duration::from_millis(550)) {
                o.label("slow");
                return Ok(());
            }
            let told = |l: &[Rec]| -> Vec<String> {
                l[seen..]
                    .iter()
                    .filter_map(|r| match r {
                        Rec::AudioLevels { captured, received, .. } => Some(format!("levels {captured} {received}")),
                        Rec::LowBandwidth { recovered: false, .. } => Some("too little bandwidth".into()),
                        Rec::LowBandwidth { recovered: true, .. } => Some("enough bandwidth again".into()),
                        _ => None,
                    })
                    .collect()
            };
            d.sh.wait(Duration::from_secs(5), |l| told(l).len() >= want.len());
            let got = told(&d.sh.log());
            ensure!(got == want, "step {i} {s:?}: the app was told {got:?} instead of {want:?}");
            for w in want {
                o.label(if w.starts_with("too") { "too little bandwidth" } else if w.starts_with("enough") { "enough bandwidth again" } else { "levels" });
                o.nontrivial_if(!w.starts_with("levels"));
            }
            let rtp = &d.sh.lock().rtp;
            if let Step::Ticks(_) = s {
                let Some((_, _, _, latest)) = rtp[..sent].last() else {
                    ensure!(rtp.len() == sent, "step {i}: sent {:?} though there's nothing to send", &rtp[sent..]);
                    continue;
                };
                ensure!(rtp.len() == sent + resent, "step {i} {s:?}: sent {} times instead of {resent}", rtp.len() - sent);
                ensure!(rtp[sent..].iter().all(|r| r.3 == *latest), "step {i} {s:?}: sent {:?} instead of {latest:?}", &rtp[sent..]);
            }
        }
        Ok(())
    };
    let r = ok();
    drop(k);
    let _ = d.cm.hangup();
    d.flush()?;
    let _ = d.cm.message_sent(cid);
    d.flush()?;
    ensure!(d.concluded(id), "the call wasn't concluded");
    d.close();
    r
}

pub fn c28(r: &mut Runner) {
    let work = Work { shards: 120, ..waiting(240) };
    r.facet("what the app is warned of", "the app was told of speech or bandwidth", work, cases, |c: &Case, o: &mut Obs| run(c, o));
    r.facet("in direct calls", "the app was told of bandwidth", par(4000), direct_cases, |c: &Direct, o: &mut Obs| run_direct(c, o));
}
