//! C03, C04: end-to-end frame encryption of group calls.
use std::collections::HashMap;

use aes::Aes256;
use ctr::cipher::{KeyIvInit, StreamCipher};
use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par};
use hkdf::Hkdf;
use hmac::{Hmac, Mac as _};
use proptest::prelude::*;
use ringrtc::core::crypto::{Context, Mac, Secret};
use serde::{Deserialize, Serialize};
use sha2::Sha256;

fn expand(secret: &Secret, info: &[u8]) -> Secret {
    let mut out = [0u8; 32];
    Hkdf::<Sha256>::new(None, secret).expand(info, &mut out).unwrap();
    out
}

/// The documented construction, written independently: what other clients produce and expect.
fn reference_encrypt(secret: &Secret, counter: u64, plain: &[u8]) -> (Vec<u8>, Mac) {
    let aes = expand(secret, b"RingRTC AES Key");
    let mackey = expand(secret, b"RingRTC HMAC Key");
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&counter.to_be_bytes());
    let mut out = plain.to_vec();
    ctr::Ctr64BE::<Aes256>::new(&aes.into(), &iv.into()).apply_keystream(&mut out);
    let mut h = Hmac::<Sha256>::new_from_slice(&mackey).unwrap();
    h.update(&iv);
    h.update(&(out.len() as u32).to_be_bytes());
    h.update(&out);
    h.update(&[0; 4]);
    let mut mac = Mac::default();
    mac.copy_from_slice(&h.finalize().into_bytes()[..16]);
    (out, mac)
}

fn secret_from(n: u64) -> Secret {
    let mut s = [0u8; 32];
    for (i, c) in s.chunks_mut(8).enumerate() {
        c.copy_from_slice(&(n.wrapping_mul(0x9E3779B97F4A7C15) ^ (i as u64 + 1)).to_le_bytes());
    }
    s
}

#[derive(Clone, Debug)]
struct Frame {
    ratchet: u8,
    abs_ratchet: u32,
    generation: u64,
    counter: u64,
    data: Vec<u8>,
    mac: Mac,
    plain: Vec<u8>,
}

/// A sender with an independent model of its key schedule.
struct Sender {
    ctx: Context,
    secret: Secret,
    ratchet: u8,
    abs_ratchet: u32,
    generation: u64,
    counters: std::collections::HashSet<u64>,
    last_counter: u64,
}

impl Sender {
    fn new(n: u64) -> Self {
        let secret = secret_from(n);
        Sender {
            ctx: Context::new(secret),
            secret,
            ratchet: 0,
            abs_ratchet: 0,
            generation: n,
            counters: Default::default(),
            last_counter: 0,
        }
    }
    fn encrypt(&mut self, plain: &[u8]) -> Result<Frame, harness::Fail> {
        let mut data = plain.to_vec();
        let mut mac = Mac::default();
        let (ratchet, counter) = match self.ctx.encrypt(&mut data, &mut mac) {
            Ok(x) => x,
            Err(e) => fail!("encrypt: {e}"),
        };
        ensure_eq!(ratchet, self.ratchet, "ratchet counter on the wire");
        ensure!(self.counters.insert(counter), "frame counter {counter} used twice");
        ensure!(counter > self.last_counter, "frame counter went back from {} to {counter}", self.last_counter);
        self.last_counter = counter;
        let (want, want_mac) = reference_encrypt(&self.secret, counter, plain);
        ensure_eq!(data, want, "ciphertext differs from the construction other clients use");
        ensure_eq!(mac, want_mac, "mac differs from the construction other clients use");
        Ok(Frame {
            ratchet,
            abs_ratchet: self.abs_ratchet,
            generation: self.generation,
            counter,
            data,
            mac,
            plain: plain.to_vec(),
        })
    }
    fn advance(&mut self) -> Result<(u8, Secret), harness::Fail> {
        let (r, s) = self.ctx.advance_send_ratchet();
        self.secret = expand(&self.secret, b"RingRTC Ratchet");
        self.ratchet = self.ratchet.wrapping_add(1);
        self.abs_ratchet += 1;
        ensure_eq!(r, self.ratchet);
        ensure_eq!(s, self.secret, "ratcheted secret");
        ensure_eq!(self.ctx.send_state(), (self.ratchet, self.secret));
        Ok((r, s))
    }
    fn reset(&mut self, n: u64) -> Res {
        let s = secret_from(n);
        self.ctx.reset_send_ratchet(s);
        self.secret = s;
        self.ratchet = 0;
        self.abs_ratchet = 0;
        self.generation = n;
        ensure_eq!(self.ctx.send_state(), (0, s));
        Ok(())
    }
}

fn decrypt(ctx: &mut Context, sender: u32, f: &Frame) -> Result<Option<Vec<u8>>, harness::Fail> {
    let mut d = f.data.clone();
    match ctx.decrypt(sender, f.ratchet, f.counter, &mut d, &f.mac) {
        Ok(()) => Ok(Some(d)),
        Err(_) => {
            ensure_eq!(d, f.data, "a rejected frame was modified");
            Ok(None)
        }
    }
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    DataBit(u32),
    MacBit(u8),
    Counter(u64),
    Ratchet(u8),
    WrongSender(u32),
    Truncate(u16),
    Append(Vec<u8>),
    Swap,
    UnknownSecret,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Frame(u16, u8),
    Empty,
    Advance,
    Rotate,
    Forge(Tamper),
    /// a late joiner learns the current send state
    Join,
}

fn tamper() -> impl Strategy<Value = Tamper> {
    prop_oneof![
        4 => any::<u32>().prop_map(Tamper::DataBit),
        3 => any::<u8>().prop_map(Tamper::MacBit),
        2 => prop_oneof![1u64..5, any::<u64>()].prop_map(Tamper::Counter),
        2 => (1..=255u8).prop_map(Tamper::Ratchet),
        1 => (1..4u32).prop_map(Tamper::WrongSender),
        1 => (1..40u16).prop_map(Tamper::Truncate),
        1 => proptest::collection::vec(any::<u8>(), 1..20).prop_map(Tamper::Append),
        1 => Just(Tamper::Swap),
        1 => Just(Tamper::UnknownSecret),
    ]
}

fn confidential(ops: &Vec<COp>, obs: &mut Obs) -> Res {
    let mut sender = Sender::new(1);
    let mut gen_no = 1;
    // receivers: context, how many frames in order it can read
    let mut receivers: Vec<Context> = vec![];
    let mut rx = Context::new(secret_from(999));
    rx.add_receive_secret(7, 0, sender.secret);
    receivers.push(rx);
    let mut prev: Option<Frame> = None;
    let (mut forged, mut plain_frames) = (0, 0);
    let mut failures = 0u32;
    for op in ops {
        match op {
            COp::Frame(len, fill) => {
                let plain: Vec<u8> = (0..*len).map(|i| (i as u8).wrapping_mul(31) ^ fill).collect();
                let f = sender.encrypt(&plain)?;
                for rx in receivers.iter_mut() {
                    ensure_eq!(decrypt(rx, 7, &f)?, Some(f.plain.clone()), "a receiver that holds the secret");
                }
                plain_frames += 1;
                prev = Some(f);
            }
            COp::Empty => {
                let f = sender.encrypt(&[])?;
                for rx in receivers.iter_mut() {
                    ensure_eq!(decrypt(rx, 7, &f)?, Some(vec![]));
                }
            }
            COp::Advance => {
                sender.advance()?;
            }
            COp::Rotate => {
                gen_no += 1;
                sender.reset(gen_no)?;
                for rx in receivers.iter_mut() {
                    rx.add_receive_secret(7, 0, sender.secret);
                }
            }
            COp::Join => {
                if receivers.len() < 4 {
                    let mut rx = Context::new(secret_from(1000 + receivers.len() as u64));
                    let (r, s) = sender.ctx.send_state();
                    rx.add_receive_secret(7, r, s);
                    if let Some(p) = &prev
                        && (p.generation, p.abs_ratchet) != (sender.generation, sender.abs_ratchet)
                    {
                        // Forward secrecy: what was sent before is out of a newcomer's reach.
                        obs.label("newcomer tries an older frame");
                        ensure_eq!(decrypt(&mut rx, 7, p)?, None, "a newcomer read a frame sent under an older key");
                    }
                    receivers.push(rx);
                    obs.label("late joiner");
                }
            }
            COp::Forge(t) => {
                let base = sender.encrypt(&[1, 2, 3, 4, 5, 6, 7, 8])?;
                let mut f = base.clone();
                let mut from = 7;
                match t {
                    Tamper::DataBit(b) => {
                        let i = *b as usize % (f.data.len() * 8);
                        f.data[i / 8] ^= 1 << (i % 8);
                    }
                    Tamper::MacBit(b) => {
                        let i = *b as usize % 128;
                        f.mac[i / 8] ^= 1 << (i % 8);
                    }
                    Tamper::Counter(d) => f.counter = f.counter.wrapping_add(*d),
                    Tamper::Ratchet(d) => f.ratchet = f.ratchet.wrapping_add(*d),
                    Tamper::WrongSender(d) => from += d,
                    Tamper::Truncate(n) => f.data.truncate(f.data.len().saturating_sub(*n as usize)),
                    Tamper::Append(v) => f.data.extend(v),
                    Tamper::Swap => {
                        let Some(p) = &prev else { continue };
                        if p.plain.is_empty() {
                            continue;
                        }
                        f.data = p.data.clone();
                    }
                    Tamper::UnknownSecret => {
                        let (d, m) = reference_encrypt(&secret_from(55_555), f.counter, &f.plain);
                        f.data = d;
                        f.mac = m;
                    }
                }
                if f.counter == base.counter && f.ratchet == base.ratchet && f.data == base.data && f.mac == base.mac && from == 7 {
                    continue;
                }
                // Only the first receiver is attacked: the others show what an undisturbed one does.
                ensure_eq!(decrypt(&mut receivers[0], from, &f)?, None, "a forged frame was accepted: {t:?}");
                forged += 1;
                if from == 7 {
                    failures += 1;
                }
                let n = receivers[0].get_error_stats().get(&7).map_or(0, |s| s.count);
                ensure_eq!(n, failures, "decryption failures counted");
                // and the honest frame is still readable
                for rx in receivers.iter_mut() {
                    ensure_eq!(decrypt(rx, 7, &base)?, Some(base.plain.clone()), "honest frame after a forgery");
                }
            }
        }
    }
    obs.label_if(forged > 0, "forgery");
    obs.nontrivial_if(forged > 0 && plain_frames > 0);
    Ok(())
}

pub fn c03(r: &mut Runner) {
    r.facet(
        "encrypt_forge_decrypt",
        "histories of 1..40 frames, ratchet advances, secret rotations, newcomers and forgeries of every part of a \
         frame, against an independent implementation of the construction and up to 4 receivers; non-trivial: at least \
         one forgery and one non-empty frame",
        par(160_000),
        || {
            let len = prop_oneof![4 => 1..64u16, 2 => Just(16u16), 1 => 200..1500u16];
            let op = prop_oneof![
                5 => (len, any::<u8>()).prop_map(|(l, f)| COp::Frame(l, f)),
                1 => Just(COp::Empty),
                2 => Just(COp::Advance),
                1 => Just(COp::Rotate),
                4 => tamper().prop_map(COp::Forge),
                1 => Just(COp::Join),
            ];
            proptest::collection::vec(op, 1..40)
        },
        confidential,
    );
}

// ---------------------------------------------------------------- C04

const MAX_LATE: u64 = 300;
const MAX_RATCHETS: u32 = 5;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Timeline {
    /// frames between ratchet advances: (frames to skip as lost, frames kept)
    segments: Vec<(u16, u8)>,
    /// delivery: positions in a priority (lateness added to each kept frame)
    lateness: Vec<u16>,
    duplicate: Vec<bool>,
    advance_by: Vec<u8>,
}

fn ooo(c: &Timeline, obs: &mut Obs) -> Res {
    let mut sender = Sender::new(1);
    let mut rx = Context::new(secret_from(9));
    rx.add_receive_secret(7, 0, sender.secret);
    let mut frames: Vec<Frame> = vec![];
    for (i, (skip, keep)) in c.segments.iter().enumerate() {
        if i > 0 {
            for _ in 0..c.advance_by.get(i).copied().unwrap_or(1) {
                sender.advance()?;
            }
        }
        for _ in 0..*skip {
            sender.encrypt(&[])?; // lost on the way
        }
        for k in 0..*keep {
            frames.push(sender.encrypt(&[i as u8, k, 3, 4])?);
        }
    }
    // Each frame arrives `lateness` frame times after it was sent.
    let mut order: Vec<(u64, usize)> = vec![];
    for i in 0..frames.len() {
        let late = c.lateness[i % c.lateness.len()] as u64;
        order.push((frames[i].counter + late, i));
        if c.duplicate[i % c.duplicate.len()] {
            order.push((frames[i].counter + late + 1, i));
        }
    }
    order.sort();
    let mut newest: Option<(u64, u32)> = None;
    let (mut crossed, mut within_late, mut beyond) = (0, 0, 0);
    for (_, i) in order {
        let f = &frames[i];
        let (m, mr) = newest.unwrap_or((f.counter, f.abs_ratchet));
        let late = m.saturating_sub(f.counter);
        let behind = mr.saturating_sub(f.abs_ratchet);
        let r = decrypt(&mut rx, 7, f)?;
        if let Some(p) = &r {
            ensure_eq!(*p, f.plain);
        }
        if f.counter >= m || behind == 0 {
            ensure!(r.is_some(), "frame {} (ratchet {}) in order or of the current ratchet was refused", f.counter, f.abs_ratchet);
        } else if late <= MAX_LATE && behind <= MAX_RATCHETS {
            ensure!(
                r.is_some(),
                "frame {} of ratchet {} arrived {late} frames late, {behind} ratchets behind (newest {m} of ratchet {mr}) and was refused",
                f.counter, f.abs_ratchet
            );
            crossed += 1;
            if late > 0 {
                within_late += 1;
            }
        } else if behind > MAX_RATCHETS {
            // Old secrets are not retained: an older key can no longer be recovered.
            ensure!(r.is_none(), "frame {} of ratchet {} is {behind} ratchets behind and was still readable", f.counter, f.abs_ratchet);
            beyond += 1;
        }
        if f.counter > m || newest.is_none() {
            newest = Some((f.counter, f.abs_ratchet));
        }
    }
    obs.label_if(crossed > 1, "several late frames of older ratchets");
    obs.label_if(beyond > 0, "late beyond the ratchet limit");
    obs.label_if(sender.abs_ratchet > 255, "ratchet counter wrapped");
    obs.nontrivial_if(within_late > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp {
    Rotate,
    Advance,
    Frame,
    /// deliver the frame `n` back in the history
    Late(u8),
}

fn rotation(ops: &Vec<ROp>, obs: &mut Obs) -> Res {
    // Secrets rotate; a receiver keeps the latest 5 of a sender and forgets older ones.
    let mut sender = Sender::new(1);
    let mut rx = Context::new(secret_from(9));
    rx.add_receive_secret(7, 0, sender.secret);
    // another sender must not be affected
    let mut other = Sender::new(500);
    rx.add_receive_secret(8, 0, other.secret);
    let mut gen_no = 1u64;
    let mut gens: Vec<u64> = vec![1];
    let mut frames: Vec<Frame> = vec![];
    let mut read: HashMap<u64, u32> = HashMap::new(); // newest ratchet read per generation
    for op in ops {
        match op {
            ROp::Rotate => {
                gen_no += 1;
                sender.reset(gen_no)?;
                rx.add_receive_secret(7, 0, sender.secret);
                gens.insert(0, gen_no);
                gens.truncate(5);
            }
            ROp::Advance => {
                sender.advance()?;
            }
            ROp::Frame => {
                let f = sender.encrypt(b"frame")?;
                ensure_eq!(decrypt(&mut rx, 7, &f)?, Some(b"frame".to_vec()));
                read.insert(f.generation, f.abs_ratchet);
                frames.push(f);
            }
            ROp::Late(n) => {
                let Some(f) = frames.len().checked_sub(1 + *n as usize).map(|i| frames[i].clone()) else { continue };
                let held = gens.contains(&f.generation);
                let behind = read.get(&f.generation).map_or(0, |r| r.saturating_sub(f.abs_ratchet));
                let r = decrypt(&mut rx, 7, &f)?;
                if !held {
                    obs.label("secret forgotten");
                    ensure!(r.is_none(), "a frame under a secret {} rotations old was readable", gen_no - f.generation);
                } else if behind <= MAX_RATCHETS && frames.len() <= 200 {
                    obs.label_if(f.generation != gen_no, "older secret still usable");
                    ensure!(r.is_some(), "frame {} of generation {} ratchet {} refused", f.counter, f.generation, f.abs_ratchet);
                    obs.nontrivial();
                }
            }
        }
        let f = other.encrypt(b"other")?;
        ensure_eq!(decrypt(&mut rx, 8, &f)?, Some(b"other".to_vec()), "an unrelated sender");
    }
    Ok(())
}

pub fn c04(r: &mut Runner) {
    r.facet(
        "late_frames",
        "a sender's timeline of up to 12 ratchet steps (runs of 0..330 lost and 1..6 kept frames between advances of \
         1..3), each kept frame delivered 0..320 frame times late, some twice; non-trivial: a frame of an older ratchet \
         arrives within the documented bounds (300 frames, 5 ratchets)",
        par(100_000),
        || {
            let skip = prop_oneof![5 => Just(0u16), 3 => 0..20u16, 2 => 90..330u16];
            let late = prop_oneof![4 => Just(0u16), 3 => 1..12u16, 2 => 1..320u16];
            (
                proptest::collection::vec((skip, 1..6u8), 1..12),
                proptest::collection::vec(late, 1..30),
                proptest::collection::vec(proptest::bool::weighted(0.15), 1..8),
                proptest::collection::vec(prop_oneof![4 => Just(1u8), 1 => 1..4u8, 1 => Just(0u8)], 1..12),
            )
                .prop_map(|(segments, lateness, duplicate, advance_by)| Timeline {
                    segments,
                    lateness,
                    duplicate,
                    advance_by,
                })
        },
        ooo,
    );
    r.facet(
        "long_call",
        "as late_frames with 100..320 ratchet steps so that the 8-bit ratchet counter wraps",
        par(4_000),
        || {
            (
                proptest::collection::vec((Just(0u16), 1..4u8), 100..320),
                proptest::collection::vec(prop_oneof![2 => Just(0u16), 1 => 1..9u16], 1..30),
                proptest::collection::vec(proptest::bool::weighted(0.1), 1..8),
            )
                .prop_map(|(segments, lateness, duplicate)| Timeline {
                    segments,
                    lateness,
                    duplicate,
                    advance_by: vec![1],
                })
        },
        ooo,
    );
    r.facet(
        "rotation",
        "5..60 rotations, advances, frames and replays of any earlier frame; non-trivial: a late frame under a secret \
         that is still among the latest five",
        par(160_000),
        || {
            let op = prop_oneof![
                2 => Just(ROp::Rotate),
                2 => Just(ROp::Advance),
                5 => Just(ROp::Frame),
                4 => (0..25u8).prop_map(ROp::Late),
            ];
            proptest::collection::vec(op, 5..60)
        },
        rotation,
    );
}
