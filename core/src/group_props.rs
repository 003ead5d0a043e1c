//! One client of a group call (C23 to C25): histories of one kind each, all
//! judged by the same model.
use harness::*;
use proptest::{option, prelude::*, sample::select};

use crate::gkeys;
use crate::gmodel::{self, Case, N, Op, Sfu, Via};

/// Mostly few devices of those there are.
fn some() -> impl Strategy<Value = u16> {
    prop_oneof![
        2 => Just(0u16),
        6 => (1..N).prop_map(|d| 1 << d),
        3 => (1..N, 1..N).prop_map(|(a, b)| 1 << a | 1 << b),
        1 => any::<u16>(),
    ]
}
fn rarely(n: u16) -> impl Strategy<Value = u16> {
    prop_oneof![9 => Just(0u16), 1 => (1..N).prop_map(|d| 1 << d), 1 => Just(n)]
}
/// One of the first devices, which are more often in the call.
fn dev() -> impl Strategy<Value = u8> {
    prop_oneof![4 => 1..5u8, 1 => 0..N]
}
fn via() -> impl Strategy<Value = Via> {
    prop_oneof![2 => any::<bool>().prop_map(Via::Reply), 3 => Just(Via::Push)]
}
fn peek() -> impl Strategy<Value = Op> {
    (
        some(),
        rarely(0),
        prop_oneof![4 => Just(0u16), 1 => some()],
        prop_oneof![6 => Just(Some(true)), 1 => Just(Some(false)), 3 => Just(None)],
        0..4u8,
        prop::bool::weighted(0.1),
        via(),
    )
        .prop_map(|(toggle, unknown, waiting, me, turn, era, via)| Op::Peek { toggle, unknown, waiting, me, turn, era, via })
}
fn sfu() -> impl Strategy<Value = Sfu> {
    prop_oneof![
        4 => (dev(), -1..3i8).prop_map(|(d, s)| Sfu::Speaker(d, s)),
        4 => prop::collection::btree_map(dev(), select(vec![0u16, 180, 240, 360, 480, 720]), 0..4)
            .prop_map(|m| Sfu::Forward(m.into_iter().collect())),
        3 => (some(), -1..3i8, prop::bool::weighted(0.2)).prop_map(|(m, a, z)| Sfu::Hands(m, a, z)),
        1 => Just(Sfu::Hint),
        1 => Just(Sfu::Garbled),
    ]
}
fn reliable() -> impl Strategy<Value = Op> {
    (prop::collection::vec((sfu(), prop_oneof![2 => Just(1u8), 2 => 2..5u8]), 1..5), prop::collection::vec(0..16u8, 0..10))
        .prop_map(|(m, o)| Op::Reliable(m, o))
}
fn key() -> impl Strategy<Value = Op> {
    (dev(), prop::bool::weighted(0.15), prop_oneof![8 => Just(0u8), 1 => 1..3u8]).prop_map(|(dev, forged, bad)| Op::Key { dev, forged, bad })
}
fn beat() -> impl Strategy<Value = Op> {
    (dev(), -1..4i8, any::<u8>(), option::weighted(0.5, dev())).prop_map(|(dev, step, bits, by)| Op::Beat { dev, step, bits, by })
}
fn length() -> impl Strategy<Value = u16> {
    prop_oneof![Just(0u16), Just(1), Just(256), Just(257), 1..40u16]
}
fn incoming() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => key(),
        1 => dev().prop_map(Op::Rekey),
        4 => beat(),
        1 => (dev(), prop::bool::weighted(0.2), prop::bool::weighted(0.2))
            .prop_map(|(dev, forged, elsewhere)| Op::LeavingSig { dev, forged, elsewhere }),
        1 => dev().prop_map(Op::LeavingRtp),
        1 => (dev(), length()).prop_map(|(d, l)| Op::React(d, l)),
        3 => (dev(), dev()).prop_map(|(d, t)| Op::MuteReq(d, t)),
        2 => dev().prop_map(Op::AskMute),
        4 => sfu().prop_map(Op::Sfu),
        3 => reliable(),
        4 => (dev(), 0..6u8).prop_map(|(d, h)| Op::Frame(d, h)),
    ]
}
fn outgoing() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => any::<bool>().prop_map(Op::SetAudio),
        2 => dev().prop_map(Op::MutedBy),
        1 => any::<bool>().prop_map(Op::SetVideo),
        1 => any::<bool>().prop_map(Op::SetPresenting),
        2 => any::<bool>().prop_map(Op::SetSharing),
        1 => length().prop_map(Op::SendReact),
        3 => any::<bool>().prop_map(Op::Raise),
        1 => dev().prop_map(Op::AskMute),
        3 => (prop::collection::vec((dev(), 0..800u16, 0..800u16), 0..4), 0..800u16).prop_map(|(v, s)| Op::Want(v, s)),
        1 => (0..60u8).prop_map(Op::Mode),
        2 => Just(Op::Resend),
        4 => (0..4u8, dev()).prop_map(|(k, d)| Op::Admin(k, d)),
    ]
}
fn lifecycle() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => Just(Op::Connect),
        4 => Just(Op::Join),
        5 => (prop::bool::weighted(0.2), 0..3u8, prop::bool::weighted(0.05), any::<bool>())
            .prop_map(|(pending, creator, weak, era)| Op::JoinReply { pending, creator, weak, era }),
        1 => any::<bool>().prop_map(Op::JoinFail),
        2 => Just(Op::Leave),
        1 => Just(Op::Disconnect),
        3 => prop_oneof![4 => 0..4u8, 1 => 4..6u8].prop_map(Op::Ice),
        8 => peek(),
        1 => Just(Op::PeekFail),
        2 => Just(Op::Proof),
        2 => (0..512u16).prop_map(Op::Members),
        2 => key(),
        2 => Just(Op::Ring),
        1 => (1..9i64).prop_map(Op::RingId),
        1 => Just(Op::Removed),
        1 => any::<bool>().prop_map(Op::Other),
        1 => Just(Op::Resend),
        1 => (0..3u8, prop::collection::vec(0..6u8, 0..5)).prop_map(|(h, t)| Op::Quit(h, t)),
    ]
}
/// How the client gets into the call.
fn opening(pending: f64) -> impl Strategy<Value = Vec<Op>> {
    (prop::bool::weighted(pending), 0..3u8, any::<bool>(), any::<u16>(), any::<u16>(), any::<bool>(), prop::collection::vec(prop_oneof![key(), peek()], 0..3)).prop_map(
        |(pending, creator, era, toggle, thin, fast, early)| {
            let mut v = vec![Op::Connect, Op::Proof];
            v.extend(early);
            v.push(Op::Join);
            let reply = Op::JoinReply { pending, creator, weak: false, era };
            let peek = Op::Peek { toggle: toggle & thin, unknown: 0, waiting: 0, me: Some(!pending), turn: 0, era: false, via: Via::Reply(false) };
            if fast {
                v.extend([peek, reply]);
            } else {
                v.extend([reply, peek]);
            }
            v
        },
    )
}
fn case(ops: impl Strategy<Value = Vec<Op>>) -> impl Strategy<Value = Case> {
    (prop::bool::weighted(0.25), prop::bool::weighted(0.85), option::weighted(0.3, 1..5i64), ops).prop_map(|(link, uuid, ring, ops)| Case { link, uuid, ring, ops })
}
fn with_opening(pending: f64, then: impl Strategy<Value = Vec<Op>>) -> impl Strategy<Value = Vec<Op>> {
    (opening(pending), then).prop_map(|(mut a, b)| {
        a.extend(b);
        a
    })
}

/// Things which only do something one after the other.
fn scene() -> impl Strategy<Value = Vec<Op>> {
    let beat = |dev, step, bits, by| Op::Beat { dev, step, bits, by };
    let known = |d| Op::Key { dev: d, forged: false, bad: 0 };
    let any = |p: f64| prop::bool::weighted(p);
    prop_oneof![
        // Somebody (perhaps us) asks somebody to mute, who does, or seems to.
        4 => (1..5u8, 0..5u8, option::weighted(0.8, 0..5u8), any(0.9), any(0.9), any(0.9), any(0.2), any(0.3), -1..3i8).prop_map(
            move |(d, e, by, keys, on, ask, again, other, step)| {
                let by = if by.is_some_and(|b| b % 2 == 0) { Some(e) } else { by };
                let mut v = vec![];
                if keys {
                    v.extend([known(d), known(e)]);
                }
                if on {
                    v.push(beat(d, 1, 0, None));
                }
                if ask {
                    v.push(if e == 0 { Op::AskMute(d) } else { Op::MuteReq(e, d) });
                }
                if again {
                    v.extend([beat(d, 1, 1, None), beat(d, 1, 0, None)]);
                }
                if other {
                    v.push(beat(d, 1, 1 << 2, None));
                }
                v.push(beat(d, step, 1, by));
                v.push(beat(d, 1, 1 | 1 << 2, by));
                v
            }
        ),
        2 => (1..5u8, length(), any(0.8)).prop_map(move |(d, l, keys)| {
            let mut v = vec![Op::React(d, l)];
            if keys {
                v.insert(0, known(d));
            }
            v
        }),
        2 => (1..5u8, 1..5u8, 0..2u8).prop_map(move |(d, e, t)| vec![known(d), known(e), Op::MuteReq(d, t), Op::MuteReq(e, 0)]),
        // Video comes and goes.
        3 => (1..5u8, 0..6u8, select(vec![180u16, 360, 720]), prop::collection::vec(0..4u8, 1..6)).prop_map(move |(d, h, want, how)| {
            let mut v = vec![known(d), Op::Sfu(Sfu::Forward(vec![(d, want)])), Op::Frame(d, h)];
            for w in how {
                match w {
                    0 => v.extend([beat(d, 1, 1 << 2, None), Op::Frame(d, h), beat(d, 1, 0, None)]),
                    1 => v.extend([Op::Sfu(Sfu::Forward(vec![])), Op::Sfu(Sfu::Forward(vec![(d, want)]))]),
                    2 => v.extend((0..2).map(|_| Op::Peek {
                        toggle: 1 << d,
                        unknown: 0,
                        waiting: 0,
                        me: None,
                        turn: 0,
                        era: false,
                        via: Via::Push,
                    })),
                    _ => {}
                }
                v.push(Op::Frame(d, h));
            }
            v
        }),
    ]
}
fn watching() -> impl Strategy<Value = Case> {
    let one = prop_oneof![6 => peek(), 14 => incoming(), 1 => outgoing()].prop_map(|o| vec![o]);
    let ops = prop::collection::vec(prop_oneof![4 => one, 1 => scene()], 5..35).prop_map(|v| v.concat());
    case(with_opening(0.1, ops))
}
/// As above, with time for what is reported once in a while.
fn watching_for_long() -> impl Strategy<Value = Case> {
    let tick = || prop_oneof![1 => 1..250u16, 2 => 450..600u16];
    let one = prop_oneof![2 => peek(), 14 => incoming(), 1 => outgoing()].prop_map(|o| vec![o]);
    let some = prop::collection::vec(prop_oneof![2 => one, 1 => scene()], 1..8);
    let ops = prop::collection::vec((some, tick()).prop_map(|(v, t)| [v.concat(), vec![Op::Wait(t)]].concat()), 1..4).prop_map(|v| v.concat());
    case(with_opening(0.1, ops))
}
fn coming_and_going() -> impl Strategy<Value = Case> {
    case(prop_oneof![
        prop::collection::vec(lifecycle(), 5..30),
        with_opening(0.3, prop::collection::vec(lifecycle(), 1..25)),
    ])
}
fn speaking() -> impl Strategy<Value = Case> {
    let then = prop_oneof![2 => peek(), 10 => outgoing(), 2 => beat(), 2 => key(), 2 => sfu().prop_map(Op::Sfu)];
    case(with_opening(0.1, prop::collection::vec(then, 5..40)))
}
fn staying() -> impl Strategy<Value = Case> {
    let then = prop_oneof![2 => peek(), 10 => outgoing(), 3 => incoming(), 2 => (50..600u16).prop_map(Op::Wait), 2 => (1500..1800u16).prop_map(Op::Wait)];
    let then = (prop::collection::vec(then, 5..20), prop::bool::weighted(0.3)).prop_map(|(mut v, count)| {
        // A few seconds at most.
        let mut left = 3600u16;
        for o in &mut v {
            if let Op::Wait(ms) = o {
                *ms = (*ms).min(left);
                left -= *ms;
            }
        }
        v.push(if count { Op::Count } else { Op::Wait(left.min(1500)) });
        v
    });
    case(with_opening(0.1, then))
}

fn members() -> impl Strategy<Value = gkeys::Case> {
    use gkeys::{Case, Step};
    let delay = prop_oneof![2 => Just(0u16), 2 => 1..300u16, 1 => 300..2000u16];
    let step = prop_oneof![6 => some().prop_map(Step::Change), 1 => Just(Step::Resend), 3 => (0..2500u16).prop_map(Step::Wait)];
    (
        any::<bool>(),
        prop::bool::weighted(0.8),
        prop::bool::weighted(0.2),
        (any::<u16>(), any::<u16>()).prop_map(|(a, b)| a & b),
        prop::array::uniform9(delay),
        prop::collection::vec(step, 1..12),
    )
        .prop_map(|(link, uuid, pending, first, delays, mut steps)| {
            let mut left = 8000u16;
            for s in &mut steps {
                if let Step::Wait(ms) = s {
                    *ms = (*ms).min(left);
                    left -= *ms;
                }
            }
            Case { link, uuid, pending, first, delays, steps }
        })
}

pub fn c22(r: &mut Runner) {
    r.facet("keys", "somebody came or left, and somebody could listen", waiting(200), members, |c: &gkeys::Case, o: &mut Obs| {
        gkeys::run(c, o)
    });
}

pub fn c23(r: &mut Runner) {
    r.facet(
        "view of the call",
        "something that was seen or said by others changed the view of the call",
        par(12_000),
        watching,
        |c: &Case, o: &mut Obs| {
            gmodel::run(
                c,
                o,
                &["saw somebody be muted", "speaker changed", "hands changed", "reaction", "somebody is leaving", "higher resolution arrived or is awaited"],
            )
        },
    );
    r.facet("view over time", "something was reported with a delay", waiting(480), watching_for_long, |c: &Case, o: &mut Obs| {
        gmodel::run(c, o, &["reaction", "asked to mute"])
    });
}

pub fn c24(r: &mut Runner) {
    r.facet("coming and going", "the call ended, was left or was refused", par(6000), coming_and_going, |c: &Case, o: &mut Obs| {
        gmodel::run(c, o, &["ended", "left", "asked for more while ending", "busy with another call"])
    });
}

pub fn c25(r: &mut Runner) {
    r.facet("what is said", "in the call and something was sent", par(8000), speaking, |c: &Case, o: &mut Obs| {
        gmodel::run(c, o, &["admin action", "screen share", "hands changed", "joined while the key was about to change"])
    });
    r.facet("what is said again", "in the call for more than a second", waiting(600), staying, |c: &Case, o: &mut Obs| {
        gmodel::run(c, o, &["heartbeats seen"])
    });
}
