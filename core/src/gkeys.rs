//! A client's own media keys: who in the call, and who outside, can decrypt
//! what it sends, moment by moment (C22).
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    time::{Duration, Instant},
};

use harness::{Obs, Res, ensure, fail};
use ringrtc::{
    core::{
        crypto::Context,
        group_call::{GroupCallKind, JoinState},
    },
    lite::sfu::{PeekDeviceInfo, PeekInfo, UserId},
    protobuf::signaling::CallMessage,
};
use serde::{Deserialize, Serialize};

use crate::{
    gmodel::{N, id, owner},
    group::*,
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// Devices come or go.
    Change(u16),
    Resend,
    Wait(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub link: bool,
    pub uuid: bool,
    pub pending: bool,
    pub first: u16,
    /// How long keys take to get to each user.
    pub delays: [u16; 9],
    pub steps: Vec<Step>,
}

const ME: u32 = 16;
const ROTATION: Duration = Duration::from_secs(5);

type Key = (u8, [u8; 32]);
struct Sample {
    text: Vec<u8>,
    data: Vec<u8>,
    mac: [u8; 16],
    ratchet: u8,
    frame: u64,
    /// Who must never be able to read it.
    barred: BTreeSet<u8>,
}
/// A user with all keys they were sent.
#[derive(Default)]
struct User {
    /// As the app of theirs keeps them.
    device: Option<Context>,
    keys: Vec<Key>,
    due: VecDeque<(Instant, Key, u64)>,
    /// in the call since the key that was sent with this number
    wants: Option<u64>,
    ready: bool,
    ever: bool,
    safe_at: Option<Instant>,
}
fn read(c: &mut Context, s: &Sample) -> bool {
    let mut data = s.data.clone();
    c.decrypt(ME, s.ratchet, s.frame, &mut data, &s.mac).is_ok() && data == s.text
}
impl User {
    fn deliver(&mut self, now: Instant) {
        while let Some(&(at, key, n)) = self.due.front()
            && at <= now
        {
            self.due.pop_front();
            self.device.get_or_insert_with(|| Context::new([7; 32])).add_receive_secret(ME, key.0, key.1);
            self.keys.push(key);
            if self.wants.is_some_and(|w| n >= w) {
                self.ready = true;
            }
        }
    }
    fn could_read(&self, s: &Sample) -> bool {
        self.keys.iter().any(|k| {
            let mut c = Context::new([7; 32]);
            c.add_receive_secret(ME, k.0, k.1);
            read(&mut c, s)
        })
    }
}

struct World {
    rig: Rig,
    uuid: bool,
    delays: [u16; 9],
    here: BTreeSet<u8>,
    users: BTreeMap<u8, User>,
    sent: u64,
    samples: Vec<Sample>,
    /// when the key that was announced last gets used
    rotation: Option<Instant>,
    checks: u64,
}

fn number(u: &UserId) -> u8 {
    u[0] - 1
}

impl World {
    fn present(&self) -> BTreeSet<u8> {
        self.here.iter().map(|&d| owner(d)).collect()
    }
    /// Takes what was sent and sends it on.
    fn pump(&mut self) -> Res {
        let present = self.present();
        for e in self.rig.log.take() {
            let (to, msg): (Vec<UserId>, CallMessage) = match e {
                Ev::Direct { to, msg, .. } => (vec![to], msg),
                Ev::Group { msg, to, .. } => {
                    ensure!(!self.uuid || !to.contains(&user(0)), "sent to several users, ourselves among them");
                    (to.into_iter().collect(), msg)
                }
                _ => continue,
            };
            let Some(k) = msg.group_call_message.and_then(|m| m.media_key) else { continue };
            let key = (k.ratchet_counter() as u8, <[u8; 32]>::try_from(k.secret()).map_err(|_| "a key of another size").unwrap_or_default());
            ensure!(k.demux_id() == ME, "the key is said to be {}'s", k.demux_id());
            self.sent += 1;
            for u in to {
                let u = number(&u);
                ensure!(present.contains(&u), "a key was sent to user {u}, who isn't in the call: {present:?}");
                let due = Instant::now() + Duration::from_millis(self.delays[u as usize] as u64);
                self.users.entry(u).or_default().due.push_back((due, key, self.sent));
            }
        }
        Ok(())
    }
    /// What is encrypted now can be read by those who should, and nobody else.
    fn look(&mut self, o: &mut Obs) -> Res {
        let before = Instant::now();
        self.pump()?;
        let n = self.samples.len();
        let text = format!("sound {n}").into_bytes();
        let data = match self.rig.client.verif_encrypt_media(&text) {
            Ok(d) => d,
            Err(e) => fail!("can't encrypt: {e}"),
        };
        ensure!(data.len() == text.len() + 21, "{} bytes became {}", text.len(), data.len());
        let (body, footer) = data.split_at(text.len());
        let mut s = Sample {
            data: body.to_vec(),
            text,
            ratchet: footer[0],
            frame: u32::from_be_bytes(footer[1..5].try_into().unwrap()) as u64,
            mac: footer[5..].try_into().unwrap(),
            barred: Default::default(),
        };
        let present = self.present();
        let now = Instant::now();
        for u in 0..9u8 {
            let w = self.users.entry(u).or_default();
            w.deliver(before);
            if present.contains(&u) {
                if w.ready {
                    let ok = w.device.as_mut().is_some_and(|c| read(c, &s));
                    ensure!(ok, "user {u} is in the call, has the keys and can't read what is sent");
                    self.checks += 1;
                }
            } else {
                w.deliver(now);
                let barred = !w.ever || w.safe_at.is_some_and(|t| before > t + Duration::from_millis(2500));
                if barred {
                    ensure!(!w.could_read(&s), "user {u} isn't in the call (ever: {}) and can read what is sent", w.ever);
                    s.barred.insert(u);
                    if w.ever {
                        o.label("somebody had been gone for long");
                    }
                }
            }
        }
        self.samples.push(s);
        Ok(())
    }
    fn peek(&mut self) -> Res {
        let known = |d: u8| PeekDeviceInfo { demux_id: id(d), user_id: Some(user(owner(d))) };
        let p = PeekInfo {
            devices: self.here.iter().map(|&d| known(d)).chain([known(0)]).collect(),
            pending_devices: vec![],
            creator: None,
            era_id: Some("1111111111111111".into()),
            max_devices: Some(40),
            call_link_state: None,
        };
        let cb = loop {
            if let Some(cb) = self.rig.asked.lock().unwrap().peeks.pop_front() {
                break cb;
            }
            // The SFU's hint that something has changed.
            use prost::Message as _;
            use ringrtc::protobuf::group_call::{SfuToDevice, sfu_to_device::DeviceJoinedOrLeft};
            let hint = SfuToDevice { device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: None }), ..Default::default() };
            self.rig.rtp(1, 1, &hint.encode_to_vec());
            ensure!(self.rig.sync(), "the client has stopped");
            if self.rig.asked.lock().unwrap().peeks.is_empty() {
                fail!("the client doesn't ask who is in the call");
            }
        };
        cb(Ok(p));
        Ok(())
    }
    fn change(&mut self, toggle: u16, o: &mut Obs) -> Res {
        let before = self.present();
        // Those who were told what's the key up to now were told before.
        self.pump()?;
        for d in 1..N {
            if toggle >> d & 1 == 1 && !self.here.remove(&d) {
                self.here.insert(d);
            }
        }
        let after = self.present();
        self.peek()?;
        ensure!(self.rig.sync(), "the client has stopped");
        let now = Instant::now();
        let mark = self.sent;
        self.pump()?;
        let mut left = false;
        for u in 0..9u8 {
            let (was, is) = (before.contains(&u), after.contains(&u));
            let w = self.users.entry(u).or_default();
            if !was && is {
                ensure!(w.due.iter().any(|d| d.2 > mark), "user {u} came and was sent no key");
                // From when the first of them comes.
                w.wants = Some(mark + 1);
                w.ready = false;
                if w.ever {
                    o.label("came back");
                }
                w.ever = true;
                w.safe_at = None;
                if self.rotation.is_some_and(|r| now < r) {
                    o.label("came while the key was about to change");
                }
            }
            // Our own user is always in the call, with this device.
            left |= was && !is && u != 0;
            if was && !is {
                w.wants = None;
                w.ready = false;
                if u != 0 {
                    let pending = self.rotation.filter(|r| now < *r + Duration::from_millis(500));
                    w.safe_at = Some(pending.unwrap_or(now) + ROTATION);
                    if pending.is_some() {
                        o.label("left while the key was about to change");
                    }
                }
            }
        }
        if left {
            o.label("left");
            self.rotation = Some(match self.rotation.filter(|r| now < *r + Duration::from_millis(500)) {
                // Another one after it.
                Some(r) => r + ROTATION,
                None => now + ROTATION,
            });
        }
        Ok(())
    }
}

pub fn run(c: &Case, o: &mut Obs) -> Res {
    let kind = if c.link { GroupCallKind::CallLink } else { GroupCallKind::SignalGroup };
    let rig = Rig::new(Start { kind, me: ME, uuid: c.uuid.then(|| user(0)), ring: None, link: None });
    let mut w = World {
        rig,
        uuid: c.uuid,
        delays: c.delays,
        here: Default::default(),
        users: Default::default(),
        sent: 0,
        samples: vec![],
        rotation: None,
        checks: 0,
    };
    let cl = w.rig.client.clone();
    cl.connect();
    cl.set_membership_proof(b"proof".to_vec());
    cl.join();
    ensure!(w.rig.sync(), "the client has stopped");
    let state = if c.pending { JoinState::Pending(ME) } else { JoinState::Joined(ME) };
    let key = *x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from([3; 32])).as_bytes();
    cl.on_sfu_client_join_attempt_completed(Ok(w.rig.joined(state, None, "1111111111111111", key, false)));
    ensure!(w.rig.sync(), "the client has stopped");
    w.change(c.first, o)?;
    let mut n = 0;
    for s in c.steps.iter().chain([&Step::Wait(200)]) {
        match s {
            Step::Change(t) => {
                w.look(o)?;
                w.change(*t, o)?;
                n += 1;
            }
            Step::Resend => {
                let mark = w.sent;
                cl.resend_media_keys();
                ensure!(w.rig.sync(), "the client has stopped");
                w.pump()?;
                for u in w.present() {
                    ensure!(w.users[&u].due.iter().any(|d| d.2 > mark), "user {u} wasn't sent the keys again");
                }
            }
            Step::Wait(ms) => {
                let end = Instant::now() + Duration::from_millis(*ms as u64);
                while Instant::now() < end {
                    w.look(o)?;
                    std::thread::sleep(Duration::from_millis(100));
                }
            }
        }
        w.look(o)?;
    }
    // In the end those who left can't read any more, and those who stayed can.
    let end = Instant::now() + ROTATION * 2 + LONG;
    loop {
        w.look(o)?;
        let s = w.samples.last().unwrap();
        let present = w.present();
        let left: Vec<u8> = w.users.iter().filter(|(u, x)| **u != 0 && !present.contains(u) && x.could_read(s)).map(|(u, _)| *u).collect();
        let waiting: Vec<u8> = present.iter().copied().filter(|u| !w.users[u].ready).collect();
        if left.is_empty() && waiting.is_empty() {
            break;
        }
        ensure!(Instant::now() < end, "still able to read, though gone: {left:?}; still unable: {waiting:?}");
        std::thread::sleep(Duration::from_millis(100));
    }
    // Nobody can read with later keys what they weren't to.
    let mut pairs = 0;
    for s in &w.samples {
        for u in &s.barred {
            ensure!(!w.users[u].could_read(s), "user {u} can read {:?}, which was sent while they weren't in the call", String::from_utf8_lossy(&s.text));
            pairs += !w.users[u].keys.is_empty() as u32;
        }
    }
    if pairs > 0 {
        o.label("somebody came later and has keys");
    }
    o.nontrivial_if(n > 0 && w.checks > 0);
    Ok(())
}
