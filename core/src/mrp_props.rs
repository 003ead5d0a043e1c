//! C01, C02: the modest reliable protocol used for SFU messages.
use std::{
    collections::BTreeMap,
    time::{Duration, Instant},
};

use harness::{Obs, Res, Runner, ensure, ensure_eq, fail, par};
use mrp::{MrpHeader, MrpReceiveError, MrpSendError, MrpStream};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A message: a list of numbers; fragments concatenate.
#[derive(Clone, Debug, PartialEq)]
pub struct Msg(Vec<u32>);
impl Extend<Msg> for Msg {
    fn extend<I: IntoIterator<Item = Msg>>(&mut self, iter: I) {
        for m in iter {
            self.0.extend(m.0);
        }
    }
}
#[derive(Clone, Debug)]
struct Wire(MrpHeader, Msg);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// side sends one message
    Send(bool),
    /// side's transport refuses the packet
    SendFails(bool),
    /// side sends one message in n fragments
    Fragmented(bool, u8),
    /// side retransmits what has timed out; the transport fails after n packets if Some
    Resend(bool, Option<u8>),
    Ack(bool),
    /// the transport refuses the ack
    AckFails(bool),
    /// a packet in flight towards `side` arrives (index, taken modulo), and stays in flight if dup
    Deliver(bool, u16, bool),
    Drop(bool, u16),
    Tick(u8),
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        6 => any::<bool>().prop_map(Op::Send),
        1 => any::<bool>().prop_map(Op::SendFails),
        3 => (any::<bool>(), 0..6u8).prop_map(|(s, n)| Op::Fragmented(s, n)),
        4 => (any::<bool>(), proptest::option::weighted(0.1, 0..3u8)).prop_map(|(s, n)| Op::Resend(s, n)),
        4 => any::<bool>().prop_map(Op::Ack),
        1 => any::<bool>().prop_map(Op::AckFails),
        12 => (any::<bool>(), any::<u16>(), proptest::bool::weighted(0.25))
            .prop_map(|(s, i, d)| Op::Deliver(s, i, d)),
        3 => (any::<bool>(), any::<u16>()).prop_map(|(s, i)| Op::Drop(s, i)),
        3 => (1..40u8).prop_map(Op::Tick),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sched {
    caps: (u8, u8), // 0: unlimited
    merge: bool,
    ops: Vec<Op>,
    /// before which operation, for how many retransmissions nothing gets through
    #[serde(default)]
    outage: Option<(u8, u16)>,
}

struct Pending {
    wire: Wire,
    due: Instant,
}

struct Side {
    stream: MrpStream<Wire, Msg>,
    cap: usize,
    next_seq: u64,
    acked: u64, // every seqnum below is acknowledged
    pending: BTreeMap<u64, Pending>,
    /// messages accepted for sending, and how they were sent
    sent: Vec<Vec<u32>>,
    /// number of leading fragments/packets of `sent`, for counting what must be delivered
    /// what the peer side handed to its caller
    got: Vec<Vec<u32>>,
    inbox: Vec<Wire>,
    /// seqnums of the peer's packets this side has accepted
    seen: std::collections::BTreeSet<u64>,
}

impl Side {
    fn new(cap: u8) -> Self {
        Side {
            stream: if cap == 0 { MrpStream::default() } else { MrpStream::with_capacity_limit(cap as usize) },
            cap: if cap == 0 { usize::MAX } else { cap as usize },
            next_seq: 1,
            acked: 1,
            pending: BTreeMap::new(),
            sent: vec![],
            got: vec![],
            inbox: vec![],
            seen: Default::default(),
        }
    }
    fn contiguous(&self) -> u64 {
        let mut n = 1;
        while self.seen.contains(&n) {
            n += 1;
        }
        n
    }
}

struct Net {
    s: [Side; 2],
    now: Instant,
    counter: u32,
    waits: u32,
    merge: bool,
}

const RTO: Duration = Duration::from_millis(50);

impl Net {
    /// A time to wait for the next acknowledgement: not the same for every packet.
    fn rto(&mut self) -> Duration {
        self.waits = self.waits.wrapping_mul(0x9E37_79B9).wrapping_add(0x7F4A_7C15);
        RTO * (1 + (self.waits >> 30))
    }

    /// The link is dead: whatever is sent is lost.
    fn outage(&mut self, rounds: u16) -> Res {
        for _ in 0..rounds {
            self.now += RTO * 5;
            for i in 0..2 {
                self.resend(i, None, &mut Obs::default())?;
            }
            for i in 0..2 {
                self.s[i].inbox.clear();
            }
        }
        Ok(())
    }

    fn send(&mut self, i: usize) -> Res {
        let wait = self.rto();
        let (me, other) = pair(&mut self.s, i);
        let full = me.pending.len() >= me.cap;
        self.counter += 1;
        let msg = Msg(vec![self.counter]);
        let due = self.now + wait;
        let mut out = None;
        let r = me.stream.try_send(|h| {
            let w = Wire(h, msg.clone());
            out = Some(w.clone());
            Ok((w, due))
        });
        match r {
            Ok(()) => {
                ensure!(!full, "accepted a packet into a full send window");
                let Some(w) = out else { fail!("send reported success without sending") };
                ensure_eq!(w.0.seqnum, Some(me.next_seq));
                ensure_eq!(w.0.ack_num, None);
                me.pending.insert(me.next_seq, Pending { wire: w.clone(), due });
                me.next_seq += 1;
                me.sent.push(msg.0);
                other.inbox.push(w);
            }
            Err(MrpSendError::SendWindowFull) => {
                ensure!(full, "refused with {} of {} in flight", me.pending.len(), me.cap);
                ensure!(out.is_none(), "sent a packet and refused it");
            }
            Err(e) => fail!("unexpected {e:?}"),
        }
        Ok(())
    }

    fn step(&mut self, op: &Op, obs: &mut Obs) -> Res {
        match op {
            Op::Send(s) => self.send(*s as usize)?,
            Op::SendFails(s) => {
                let me = &mut self.s[*s as usize];
                let full = me.pending.len() >= me.cap;
                match me.stream.try_send(|_| Err(anyhow::anyhow!("no route"))) {
                    Ok(()) => fail!("a failed transport send was reported as sent"),
                    Err(MrpSendError::SendWindowFull) => ensure!(full),
                    Err(MrpSendError::InnerSendFailed(_)) => ensure!(!full),
                }
            }
            Op::Fragmented(s, n) => {
                let peer_cap = self.s[1 - *s as usize].cap;
                let (me, other) = pair(&mut self.s, *s as usize);
                let mut n = *n as usize;
                if !self.merge || n > peer_cap {
                    n = 1;
                }
                if n == 0 {
                    return Ok(());
                }
                let frags: Vec<Wire> = (0..n)
                    .map(|_| {
                        self.counter += 1;
                        Wire(MrpHeader::default(), Msg(vec![self.counter]))
                    })
                    .collect();
                let whole: Vec<u32> = frags.iter().flat_map(|w| w.1.0.clone()).collect();
                let due = self.now + [RTO, RTO * 3][n % 2];
                let before = me.pending.len();
                let mut out = vec![];
                let r = me.stream.try_send_fragmented(frags, |_, h, mut w| {
                    w.0 = h;
                    out.push(w.clone());
                    (w, due)
                });
                match r {
                    Ok(()) => {
                        ensure!(before + n <= me.cap, "accepted {n} fragments with {before} of {} in flight", me.cap);
                        ensure_eq!(out.len(), n);
                        for w in out {
                            ensure_eq!(w.0.seqnum, Some(me.next_seq));
                            me.pending.insert(me.next_seq, Pending { wire: w.clone(), due });
                            me.next_seq += 1;
                            other.inbox.push(w);
                        }
                        me.sent.push(whole);
                        obs.label_if(n > 1, "fragmented");
                    }
                    Err(MrpSendError::SendWindowFull) => {
                        ensure!(before + n >= me.cap, "refused {n} fragments with {before} of {} in flight", me.cap);
                        ensure!(out.is_empty(), "a refused message was sent in part");
                    }
                    Err(e) => fail!("unexpected {e:?}"),
                }
            }
            Op::Resend(s, failing) => self.resend(*s as usize, *failing, obs)?,
            Op::Ack(s) => self.ack(*s as usize, false)?,
            Op::AckFails(s) => self.ack(*s as usize, true)?,
            Op::Deliver(s, i, dup) => {
                let i_side = *s as usize;
                let len = self.s[i_side].inbox.len();
                if len == 0 {
                    return Ok(());
                }
                let at = *i as usize * len >> 16;
                obs.label_if(at != 0, "reordered");
                obs.label_if(*dup, "duplicated");
                let w = if *dup { self.s[i_side].inbox[at].clone() } else { self.s[i_side].inbox.remove(at) };
                self.deliver(i_side, w, obs)?;
            }
            Op::Drop(s, i) => {
                let me = &mut self.s[*s as usize];
                if !me.inbox.is_empty() {
                    let at = *i as usize * me.inbox.len() >> 16;
                    me.inbox.remove(at);
                    obs.label("lost");
                }
            }
            Op::Tick(ms) => self.now += Duration::from_millis(*ms as u64),
        }
        for i in 0..2 {
            let s = &self.s[i];
            ensure!(s.stream.send_len() <= s.cap, "send window overflow");
            ensure!(s.stream.receive_len() <= s.cap, "receive window overflow");
            ensure_eq!(s.stream.send_len(), s.pending.len(), "in flight at side {i}");
            ensure_eq!(s.stream.ack_seqnum(), s.contiguous(), "next expected at side {i}");
            // what the caller was given is a prefix of what the peer sent, in order, once
            let peer = &self.s[1 - i].sent;
            ensure!(
                s.got.len() <= peer.len() && s.got[..] == peer[..s.got.len()],
                "side {i} was given {:?}, its peer sent {:?}", s.got, peer
            );
        }
        Ok(())
    }

    fn resend(&mut self, i: usize, failing: Option<u8>, obs: &mut Obs) -> Res {
        let now = self.now;
        let waits: Vec<Duration> = (0..self.s[i].pending.len()).map(|_| self.rto()).collect();
        let (me, other) = pair(&mut self.s, i);
        let mut expect: Vec<u64> =
            me.pending.iter().filter(|(_, p)| p.due <= now).map(|(s, _)| *s).collect();
        let mut out = vec![];
        let r = me.stream.try_resend(now, |w| {
            if Some(out.len()) == failing.map(usize::from) {
                return Err(anyhow::anyhow!("no route"));
            }
            out.push(w.clone());
            Ok(now + waits.get(out.len() - 1).copied().unwrap_or(RTO))
        });
        if let Some(n) = failing.map(usize::from)
            && n < expect.len()
        {
            ensure!(matches!(r, Err(MrpSendError::InnerSendFailed(_))), "{r:?}");
            expect.truncate(n);
        } else {
            ensure!(r.is_ok(), "{r:?}");
        }
        let sent: Vec<u64> = out.iter().filter_map(|w| w.0.seqnum).collect();
        ensure_eq!(sent, expect, "retransmitted");
        obs.label_if(!sent.is_empty(), "retransmitted");
        for (k, w) in out.into_iter().enumerate() {
            let p = me.pending.get_mut(&w.0.seqnum.unwrap()).unwrap();
            ensure_eq!(p.wire.0, w.0);
            ensure_eq!(p.wire.1, w.1);
            p.due = now + waits[k];
            other.inbox.push(w);
        }
        Ok(())
    }

    fn ack(&mut self, i: usize, fails: bool) -> Res {
        let (me, other) = pair(&mut self.s, i);
        let mut out = vec![];
        let r = me.stream.try_send_ack(|h| {
            if fails {
                return Err(anyhow::anyhow!("no route"));
            }
            out.push(h);
            Ok(())
        });
        match r {
            Ok(Some(n)) => {
                ensure!(!fails);
                ensure_eq!(n, me.contiguous());
                ensure_eq!(out.len(), 1);
                ensure_eq!(out[0].ack_num, Some(me.contiguous()));
                ensure_eq!(out[0].seqnum, None);
                other.inbox.push(Wire(out.remove(0), Msg(vec![])));
            }
            Ok(None) => ensure!(out.is_empty()),
            Err(MrpSendError::InnerSendFailed(_)) => ensure!(fails),
            Err(e) => fail!("{e:?}"),
        }
        Ok(())
    }

    fn deliver(&mut self, i: usize, w: Wire, obs: &mut Obs) -> Res {
        let (me, _) = pair(&mut self.s, i);
        let left = me.contiguous();
        let r = if self.merge {
            me.stream.receive_and_merge(&w.0, w.1.clone())
        } else {
            me.stream.receive(&w.0, w.1.clone())
        };
        if let Some(a) = w.0.ack_num {
            ensure_eq!(r, Ok(vec![]));
            if a > me.acked {
                me.acked = a;
                me.pending.retain(|s, _| *s >= a);
            }
            return Ok(());
        }
        let seq = w.0.seqnum.unwrap();
        let beyond = seq >= left.saturating_add(me.cap as u64);
        match r {
            Ok(out) => {
                ensure!(!beyond, "accepted packet {seq} beyond the window {left}+{}", me.cap);
                if seq < left {
                    ensure!(out.is_empty(), "a duplicate was delivered again: {out:?}");
                    obs.label("old duplicate");
                }
                me.seen.insert(seq);
                me.got.extend(out.into_iter().map(|m| m.0));
            }
            Err(MrpReceiveError::ReceiveWindowFull(s)) => {
                ensure_eq!(s, seq);
                ensure!(beyond, "refused packet {seq} inside the window {left}+{}", me.cap);
                obs.label("beyond window");
            }
            Err(e) => fail!("{e:?}"),
        }
        Ok(())
    }
}

fn pair(s: &mut [Side; 2], i: usize) -> (&mut Side, &mut Side) {
    let (a, b) = s.split_at_mut(1);
    if i == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) }
}

fn schedule(c: &Sched, obs: &mut Obs) -> Res {
    let mut net = Net {
        s: [Side::new(c.caps.0), Side::new(c.caps.1)],
        now: Instant::now(),
        counter: 0,
        waits: 0,
        merge: c.merge,
    };
    for (k, op) in c.ops.iter().enumerate() {
        if let Some((at, rounds)) = c.outage
            && at as usize == k
        {
            net.outage(rounds)?;
            obs.label("long outage");
        }
        net.step(op, obs)?;
    }
    let disturbed = ["reordered", "lost", "duplicated"].iter().any(|_| true) && c.ops.iter().any(|o| {
        matches!(o, Op::Drop(..)) || matches!(o, Op::Deliver(_, i, d) if *d || *i > 32768)
    });
    // The network heals: retransmissions and acknowledgements now arrive, so everything accepted
    // must be delivered and every packet acknowledged.
    let total = net.s[0].sent.len() + net.s[1].sent.len();
    for _ in 0..(2 * total + 8) * 24 {
        for i in 0..2 {
            net.now += RTO;
            net.resend(i, None, &mut Obs::default())?;
            net.ack(i, false)?;
        }
        for i in 0..2 {
            for w in std::mem::take(&mut net.s[i].inbox) {
                net.deliver(i, w, &mut Obs::default())?;
            }
        }
        for i in 0..2 {
            net.ack(i, false)?;
        }
        if net.s.iter().all(|s| s.pending.is_empty() && s.inbox.is_empty()) {
            break;
        }
    }
    for i in 0..2 {
        ensure_eq!(net.s[i].got, net.s[1 - i].sent, "after the network healed, side {i}");
        ensure!(net.s[i].pending.is_empty(), "side {i} still has unacknowledged packets");
        ensure_eq!(net.s[i].stream.send_len(), 0);
        ensure_eq!(net.s[i].stream.receive_len(), 0);
    }
    obs.nontrivial_if(disturbed && total >= 3);
    Ok(())
}

pub fn c01(r: &mut Runner) {
    let rule = "two endpoints, windows of 1..16 or unlimited, 10..120 sends / fragmented sends / failing sends / \
        retransmission polls / acks / arrivals (any order, duplicated) / losses / long outages, with timeouts of every packet its own, then a healing phase; non-trivial: \
        at least 3 messages and some loss, duplication or reordering";
    r.facet(
        "lossy_schedule",
        rule,
        par(240_000),
        || {
            (
                prop_oneof![3 => (1..17u8, 1..17u8), 1 => (1..4u8, 1..4u8), 1 => Just((0u8, 0u8))],
                proptest::bool::weighted(0.8),
                proptest::collection::vec(op(), 10..120),
                proptest::option::weighted(0.01, (0..60u8, prop_oneof![3 => 1..80u16, 1 => 80..1500u16])),
            )
                .prop_map(|(caps, merge, ops, outage)| Sched { caps, merge, ops, outage })
        },
        schedule,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hostile {
    Rx { seq: Option<u64>, ack: Option<u64>, n: Option<u32> },
    Send,
    Fragmented(u8),
    Ack,
    Resend,
}

fn weird(around: u64) -> impl Strategy<Value = u64> {
    prop_oneof![
        10 => 0..around,
        2 => Just(u64::MAX),
        1 => Just(u64::MAX - 1),
        1 => Just(1u64 << 63),
        1 => Just(u32::MAX as u64),
        1 => any::<u64>(),
    ]
}

fn hostile(c: &(u8, bool, Vec<Hostile>), obs: &mut Obs) -> Res {
    let (cap, merge, ops) = (c.0 as usize, c.1, &c.2);
    let mut st: MrpStream<Wire, Msg> = MrpStream::with_capacity_limit(cap);
    let now = Instant::now();
    let mut next_seq = 1u64;
    let mut unacked: std::collections::BTreeSet<u64> = Default::default();
    let mut last_given = 0u32;
    let mut next_expected = 1u64;
    let mut held: std::collections::BTreeSet<u64> = Default::default();
    for op in ops {
        match op {
            Hostile::Send => {
                let r = st.try_send(|h| Ok((Wire(h, Msg(vec![])), now)));
                if unacked.len() < cap {
                    ensure!(r.is_ok(), "{r:?}");
                    unacked.insert(next_seq);
                    next_seq += 1;
                } else {
                    ensure!(r.is_err());
                }
            }
            Hostile::Fragmented(n) => {
                let n = *n as usize;
                let frags = (0..n).map(|_| Wire(MrpHeader::default(), Msg(vec![]))).collect();
                if st.try_send_fragmented(frags, |_, h, mut w| { w.0 = h; (w, now) }).is_ok() {
                    ensure!(unacked.len() + n <= cap, "overfull");
                    for _ in 0..n {
                        unacked.insert(next_seq);
                        next_seq += 1;
                    }
                }
            }
            Hostile::Ack => {
                let mut seen = None;
                let r = st.try_send_ack(|h| { seen = h.ack_num; Ok(()) });
                if let Ok(Some(n)) = r {
                    ensure_eq!(seen, Some(n));
                    ensure_eq!(n, next_expected, "acknowledged what was not received");
                }
            }
            Hostile::Resend => {
                let mut out = vec![];
                let r = st.try_resend(now, |w| { out.push(w.0.seqnum.unwrap()); Ok(now) });
                ensure!(r.is_ok());
                ensure_eq!(out, unacked.iter().copied().collect::<Vec<_>>(), "kept for retransmission");
            }
            Hostile::Rx { seq, ack, n } => {
                let h = MrpHeader::new_with_length(*seq, *ack, *n);
                // The payload of packet k names k, so that deliveries can be told apart.
                let payload = Msg(vec![seq.unwrap_or(0) as u32]);
                let r = if merge { st.receive_and_merge(&h, payload.clone()) } else { st.receive(&h, payload.clone()) };
                if let Some(a) = ack {
                    // An acknowledgement can only cover packets that were sent.
                    if *a <= next_seq {
                        unacked.retain(|s| s >= a);
                    } else {
                        obs.label("impossible ack");
                    }
                    ensure_eq!(r, Ok(vec![]));
                } else if let Some(s) = seq {
                    let inside = *s >= next_expected && *s - next_expected < cap as u64;
                    if inside {
                        held.insert(*s);
                        while held.remove(&next_expected) {
                            next_expected += 1;
                        }
                    } else {
                        obs.label("outside the window");
                        if *s >= next_expected {
                            ensure_eq!(r, Err(MrpReceiveError::ReceiveWindowFull(*s)));
                        } else {
                            ensure_eq!(r, Ok(vec![]), "an already received packet was given again");
                        }
                    }
                    if let Ok(given) = r {
                        // Whatever the headers say, nothing is given twice, out of order or before
                        // its predecessors arrived.
                        for k in given.into_iter().flat_map(|m| m.0) {
                            ensure!(k > last_given, "{k} given after {last_given}");
                            ensure!((k as u64) < next_expected, "{k} given before {next_expected} arrived");
                            if !merge {
                                ensure_eq!(k, last_given + 1, "a packet was skipped");
                            }
                            last_given = k;
                        }
                    } else {
                        obs.label("refused");
                    }
                } else {
                    ensure_eq!(r, Ok(vec![payload]), "a packet without sequencing must pass straight through");
                }
            }
        }
        ensure!(st.send_len() <= cap && st.receive_len() <= cap, "window overflow");
        ensure_eq!(st.ack_seqnum(), next_expected);
        ensure_eq!(st.send_len(), unacked.len());
    }
    obs.nontrivial_if(ops.iter().any(|o| matches!(o, Hostile::Rx { .. })));
    Ok(())
}

pub fn c02(r: &mut Runner) {
    r.facet(
        "hostile_headers",
        "one endpoint with a window of 1..24; 1..80 own sends/acks/retransmissions mixed with received headers whose \
         sequence, acknowledgement and fragment counts are arbitrary (boundary and random 64-bit values, values near \
         the window); non-trivial: at least one received packet",
        par(240_000),
        || {
            let rx = prop_oneof![
                6 => (weird(40), proptest::option::of(prop_oneof![3 => 0..6u32, 1 => any::<u32>()]))
                    .prop_map(|(s, n)| Hostile::Rx { seq: Some(s), ack: None, n }),
                3 => (weird(40), proptest::option::weighted(0.2, weird(40)), proptest::option::weighted(0.2, any::<u32>()))
                    .prop_map(|(a, s, n)| Hostile::Rx { seq: s, ack: Some(a), n }),
                1 => proptest::option::of(any::<u32>()).prop_map(|n| Hostile::Rx { seq: None, ack: None, n }),
            ];
            let op = prop_oneof![
                8 => rx,
                3 => Just(Hostile::Send),
                1 => (0..5u8).prop_map(Hostile::Fragmented),
                2 => Just(Hostile::Ack),
                2 => Just(Hostile::Resend),
            ];
            (1..25u8, any::<bool>(), proptest::collection::vec(op, 1..80))
        },
        hostile,
    );
    r.facet(
        "in_order_flood",
        "an unlimited or bounded endpoint receives packets 1..n, each several times in a generated order, with \
         generated fragment grouping; non-trivial: n > 3",
        par(80_000),
        || {
            (proptest::collection::vec(1..5u8, 1..12), any::<u64>(), 1..4u8).prop_map(|(g, seed, copies)| Flood {
                groups: g,
                seed,
                copies,
            })
        },
        flood,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flood {
    groups: Vec<u8>,
    seed: u64,
    copies: u8,
}

fn flood(c: &Flood, obs: &mut Obs) -> Res {
    let mut st: MrpStream<Wire, Msg> = MrpStream::default();
    let mut packets = vec![];
    let mut expect = vec![];
    let mut seq = 1u64;
    for g in &c.groups {
        let mut whole = vec![];
        for k in 0..*g {
            let n = (k == 0).then_some(*g as u32);
            packets.push((MrpHeader::new_with_length(Some(seq), None, n), Msg(vec![seq as u32])));
            whole.push(seq as u32);
            seq += 1;
        }
        expect.push(whole);
    }
    let mut order: Vec<usize> = (0..packets.len()).flat_map(|i| vec![i; c.copies as usize]).collect();
    // Fisher-Yates with a generated seed
    let mut x = c.seed | 1;
    for i in (1..order.len()).rev() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        order.swap(i, (x >> 33) as usize % (i + 1));
    }
    let mut got = vec![];
    for i in order {
        let (h, p) = &packets[i];
        match st.receive_and_merge(h, p.clone()) {
            Ok(v) => got.extend(v.into_iter().map(|m| m.0)),
            Err(e) => fail!("{e:?}"),
        }
        ensure!(got.len() <= expect.len() && got[..] == expect[..got.len()], "{got:?} vs {expect:?}");
    }
    ensure_eq!(got, expect);
    obs.nontrivial_if(seq > 4);
    Ok(())
}
