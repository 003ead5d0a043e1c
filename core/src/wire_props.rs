//! C13: what signaling messages mean on the wire, against a hand-written codec.
use std::net::{IpAddr, SocketAddr};

use harness::{Obs, Runner, ensure, ensure_eq, par};
use proptest::prelude::*;
use ringrtc::{
    common::CallMediaType,
    core::signaling::{Answer, Hangup, HangupType, IceCandidate, Offer},
    protobuf::signaling::{ConnectionParametersV4, VideoCodec},
};
use serde::{Deserialize, Serialize};

// -- A codec of its own ----------------------------------------------------------------------------------------------

fn good<T>(r: Result<T, impl std::fmt::Display>) -> Result<T, harness::Fail> {
    r.map_err(|e| harness::Fail::from(format!("refused: {e}")))
}
fn varint(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn number(field: u32, v: u64, out: &mut Vec<u8>) {
    varint((field as u64) << 3, out);
    varint(v, out);
}
fn bytes(field: u32, b: &[u8], out: &mut Vec<u8>) {
    varint((field as u64) << 3 | 2, out);
    varint(b.len() as u64, out);
    out.extend_from_slice(b);
}

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Num(u64),
    Bytes(Vec<u8>),
    Other,
}
/// The fields of a message in the order in which they come; None if it is damaged.
fn fields(mut b: &[u8]) -> Option<Vec<(u32, Val)>> {
    fn num(b: &mut &[u8]) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let x = *b.first()?;
            *b = &b[1..];
            v |= ((x & 0x7f) as u64) << (7 * i);
            if x < 0x80 {
                return Some(v);
            }
        }
        None
    }
    fn take<'a>(b: &mut &'a [u8], n: u64) -> Option<&'a [u8]> {
        if n > b.len() as u64 {
            return None;
        }
        let (x, y) = b.split_at(n as usize);
        *b = y;
        Some(x)
    }
    let mut all = vec![];
    while !b.is_empty() {
        let tag = num(&mut b)?;
        let v = match tag & 7 {
            0 => Val::Num(num(&mut b)?),
            1 => take(&mut b, 8).map(|_| Val::Other)?,
            2 => {
                let n = num(&mut b)?;
                Val::Bytes(take(&mut b, n)?.to_vec())
            }
            5 => take(&mut b, 4).map(|_| Val::Other)?,
            _ => return None,
        };
        all.push(((tag >> 3) as u32, v));
    }
    Some(all)
}

#[derive(Default)]
struct Known {
    sdp: Option<String>,
    added: bool,
    ip: Option<Vec<u8>>,
    port: Option<u32>,
}
/// A candidate as any other client reads it.
fn read_candidate(opaque: &[u8]) -> Option<Known> {
    let mut k = Known::default();
    for (f, v) in fields(opaque)? {
        match (f, v) {
            (2, Val::Bytes(b)) => {
                k.added = true;
                for (f, v) in fields(&b)? {
                    match (f, v) {
                        (1, Val::Bytes(b)) => k.sdp = Some(String::from_utf8(b).ok()?),
                        (1, _) => return None,
                        _ => {}
                    }
                }
            }
            (3, Val::Bytes(b)) => {
                for (f, v) in fields(&b)? {
                    match (f, v) {
                        (1, Val::Bytes(b)) => k.ip = Some(b),
                        (2, Val::Num(n)) => k.port = Some(n as u32),
                        (1 | 2, _) => return None,
                        _ => {}
                    }
                }
            }
            (2 | 3, _) => return None,
            _ => {}
        }
    }
    Some(k)
}
fn address(k: &Known) -> Option<SocketAddr> {
    let ip: IpAddr = match k.ip.as_ref()?.as_slice() {
        &[a, b, c, d] => [a, b, c, d].into(),
        s => <[u8; 16]>::try_from(s).ok()?.into(),
    };
    Some(SocketAddr::new(ip, k.port?.try_into().ok()?))
}
fn same_candidate(opaque: &[u8]) -> Result<Option<Known>, harness::Fail> {
    let c = IceCandidate::new(opaque.to_vec());
    ensure_eq!(c.opaque, opaque);
    let k = read_candidate(opaque);
    ensure_eq!(c.v3_sdp(), k.as_ref().and_then(|k| k.sdp.clone()));
    ensure_eq!(c.removed_address(), k.as_ref().and_then(address));
    Ok(k)
}

// -- Generators ------------------------------------------------------------------------------------------------------

/// A field some later version may add (1..=15 or far away).
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Later {
    Num(u32, u64),
    Fixed64(u32),
    Bytes(u32, Vec<u8>),
    Fixed32(u32),
}
impl Later {
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            Later::Num(f, v) => number(*f, *v, out),
            Later::Bytes(f, b) => bytes(*f, b, out),
            Later::Fixed64(f) => {
                varint((*f as u64) << 3 | 1, out);
                out.extend_from_slice(&[0xff; 8]);
            }
            Later::Fixed32(f) => {
                varint((*f as u64) << 3 | 5, out);
                out.extend_from_slice(&[0x80; 4]);
            }
        }
    }
}
fn later() -> impl Strategy<Value = Later> {
    let f = || prop_oneof![8..20u32, 100..5000u32, Just((1 << 29) - 1)];
    prop_oneof![
        (f(), any::<u64>()).prop_map(|(f, v)| Later::Num(f, v)),
        f().prop_map(Later::Fixed64),
        (f(), prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(f, b)| Later::Bytes(f, b)),
        f().prop_map(Later::Fixed32),
    ]
}
fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        "candidate:[0-9]{1,8} 1 udp [0-9]{1,10} (10\\.0\\.0\\.[0-9]{1,2}|fe80::[0-9a-f]{1,4}) [0-9]{1,5} typ (host|srflx|relay)",
        ".{0,40}",
        "[a-z]{120,300}",
    ]
}
fn ip() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        3 => prop::collection::vec(any::<u8>(), 4),
        3 => prop::collection::vec(any::<u8>(), 16),
        1 => prop::collection::vec(any::<u8>(), 0..20),
        1 => (any::<[u8; 4]>()).prop_map(|v4| [&[0; 10][..], &[0xff; 2], &v4].concat()),
    ]
}
fn port() -> impl Strategy<Value = u64> {
    prop_oneof![4 => 0..65536u64, 1 => 65534..65540u64, 1 => any::<u32>().prop_map(u64::from)]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Part {
    Sdp(Option<String>, Vec<Later>),
    NotText(Vec<u8>),
    Removed { ip: Option<Vec<u8>>, port: Option<u64>, port_first: bool, later: Vec<Later> },
    Later(Later),
}
fn part() -> impl Strategy<Value = Part> {
    let few = || prop::collection::vec(later(), 0..3);
    let maybe = prop::option::weighted(0.9, text());
    prop_oneof![
        4 => (maybe, few()).prop_map(|(s, l)| Part::Sdp(s, l)),
        1 => prop::collection::vec(any::<u8>(), 0..5).prop_map(Part::NotText),
        4 => (prop::option::weighted(0.9, ip()), prop::option::weighted(0.9, port()), any::<bool>(), few())
            .prop_map(|(ip, port, port_first, later)| Part::Removed { ip, port, port_first, later }),
        3 => later().prop_map(Part::Later),
    ]
}
fn put(parts: &[Part]) -> Vec<u8> {
    let mut out = vec![];
    for p in parts {
        let mut inner = vec![];
        match p {
            Part::Sdp(s, l) => {
                if let Some(s) = s {
                    bytes(1, s.as_bytes(), &mut inner);
                }
                l.iter().for_each(|l| l.put(&mut inner));
                bytes(2, &inner, &mut out);
            }
            Part::NotText(b) => {
                bytes(1, b, &mut inner);
                bytes(2, &inner, &mut out);
            }
            Part::Removed { ip, port, port_first, later } => {
                if let (Some(p), true) = (port, port_first) {
                    number(2, *p, &mut inner);
                }
                later.iter().for_each(|l| l.put(&mut inner));
                if let Some(ip) = ip {
                    bytes(1, ip, &mut inner);
                }
                if let (Some(p), false) = (port, port_first) {
                    number(2, *p, &mut inner);
                }
                bytes(3, &inner, &mut out);
            }
            Part::Later(l) => l.put(&mut out),
        }
    }
    out
}

// -- Connection parameters -------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Params {
    key: Option<Vec<u8>>,
    ufrag: Option<String>,
    pwd: Option<String>,
    codecs: Vec<Option<i32>>,
    max: Option<u64>,
    encode: Vec<Option<i32>>,
    decode: Vec<Option<i32>>,
}
fn params() -> impl Strategy<Value = Params> {
    fn codecs() -> impl Strategy<Value = Vec<Option<i32>>> {
        let one = prop_oneof![6 => prop_oneof![Just(8), Just(9), Just(40), Just(46)].prop_map(Some), 1 => (0..100).prop_map(Some), 1 => Just(None)];
        prop::collection::vec(one, 0..5)
    }
    (
        prop::option::of(prop::collection::vec(any::<u8>(), 0..40)),
        prop::option::of(text()),
        prop::option::of(text()),
        codecs(),
        prop::option::of(any::<u64>()),
        codecs(),
        codecs(),
    )
        .prop_map(|(key, ufrag, pwd, codecs, max, encode, decode)| Params { key, ufrag, pwd, codecs, max, encode, decode })
}
impl Params {
    fn message(&self) -> ConnectionParametersV4 {
        let codecs = |c: &[Option<i32>]| c.iter().map(|t| VideoCodec { r#type: *t }).collect();
        ConnectionParametersV4 {
            public_key: self.key.clone(),
            ice_ufrag: self.ufrag.clone(),
            ice_pwd: self.pwd.clone(),
            receive_video_codecs: codecs(&self.codecs),
            max_bitrate_bps: self.max,
            encode_only_video_codecs: codecs(&self.encode),
            decode_only_video_codecs: codecs(&self.decode),
        }
    }
    /// In the form every client has used from the start; `later` in between.
    fn wire(&self, later: &[Later]) -> Vec<u8> {
        let mut out = vec![];
        if let Some(k) = &self.key {
            bytes(1, k, &mut out);
        }
        if let Some(s) = &self.ufrag {
            bytes(2, s.as_bytes(), &mut out);
        }
        later.iter().for_each(|l| l.put(&mut out));
        if let Some(s) = &self.pwd {
            bytes(3, s.as_bytes(), &mut out);
        }
        let codecs = |field, list: &[Option<i32>], out: &mut Vec<u8>| {
            for t in list {
                let mut c = vec![];
                if let Some(t) = t {
                    number(1, *t as u64, &mut c);
                }
                bytes(field, &c, out);
            }
        };
        codecs(4, &self.codecs, &mut out);
        if let Some(m) = self.max {
            number(5, m, &mut out);
        }
        codecs(6, &self.encode, &mut out);
        codecs(7, &self.decode, &mut out);
        out
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Opening {
    params: Params,
    video: bool,
    inner: Vec<Later>,
    before: Vec<Later>,
    after: Vec<Later>,
    /// Without the version we know.
    unknown_only: bool,
    cut: Option<u16>,
}
fn opening() -> impl Strategy<Value = Opening> {
    let few = || prop::collection::vec(later(), 0..3);
    (params(), any::<bool>(), few(), few(), few(), prop::bool::weighted(0.1), prop::option::weighted(0.3, any::<u16>())).prop_map(
        |(params, video, inner, before, after, unknown_only, cut)| Opening { params, video, inner, before, after, unknown_only, cut },
    )
}

pub fn c13(r: &mut Runner) {
    r.facet("candidates", "not empty", par(100_000), || (text(), ip(), any::<u16>()), |(sdp, ip, port): &(String, Vec<u8>, u16), o: &mut Obs| {
        let c = good(IceCandidate::from_v3_sdp(sdp.clone()))?;
        let (mut inner, mut want) = (vec![], vec![]);
        bytes(1, sdp.as_bytes(), &mut inner);
        bytes(2, &inner, &mut want);
        ensure_eq!(c.opaque, want);
        ensure_eq!(c.v3_sdp(), Some(sdp.clone()));
        ensure_eq!(c.removed_address(), None);

        let k = Known { ip: Some(ip.clone()), port: Some(*port as u32), ..Known::default() };
        if let Some(a) = address(&k) {
            let c = good(IceCandidate::from_removed_address(a))?;
            ensure_eq!(c.removed_address(), Some(a));
            let Some(k) = read_candidate(&c.opaque) else { harness::fail!("a removal can't be read") };
            ensure_eq!(address(&k), Some(a));
            // An IPv4 address in four bytes, an IPv6 address in sixteen, whatever it maps to.
            ensure_eq!(k.ip.as_ref(), Some(ip));
            // Older clients insist on a candidate; it must be one that connects to nothing.
            let Some(fake) = c.v3_sdp() else { harness::fail!("a removal without a candidate") };
            let f: Vec<_> = fake.split(' ').collect();
            ensure!(
                f.len() == 8 && f[0].starts_with("candidate:") && f[1] == "1" && f[2] == "tcp" && f[4] == "127.0.0.1" && f[5] == "0" && f[6] == "typ",
                "a removal comes with {fake:?}"
            );
            o.label(if a.is_ipv4() { "removed IPv4" } else { "removed IPv6" });
        }
        o.nontrivial_if(!sdp.is_empty());
        Ok(())
    });
    let foreign = || (prop::collection::vec(part(), 0..5), prop::option::weighted(0.3, any::<u16>()));
    r.facet("foreign candidates", "readable, with something in it we know", par(200_000), foreign, |(parts, cut), o: &mut Obs| {
        let mut b = put(parts);
        if let Some(cut) = cut {
            b.truncate(*cut as usize % (b.len() + 1));
        }
        match same_candidate(&b)? {
            None => o.label("refused"),
            Some(k) => {
                o.label_if(k.added && address(&k).is_some(), "added and removed");
                o.label_if(k.ip.is_some() && address(&k).is_none(), "no address");
                o.nontrivial_if(k.sdp.is_some() || address(&k).is_some());
            }
        }
        Ok(())
    });
    r.facet("offers and answers", "complete, with our version in it", par(150_000), opening, |c: &Opening, o: &mut Obs| {
        let media = if c.video { CallMediaType::Video } else { CallMediaType::Audio };
        let v4 = c.params.message();
        let mut want = vec![];
        bytes(4, &c.params.wire(&[]), &mut want);
        let offer = good(Offer::from_v4(media, v4.clone()))?;
        let answer = good(Answer::from_v4(v4.clone()))?;
        ensure_eq!(offer.opaque, want);
        ensure_eq!(answer.opaque, want);
        ensure_eq!(offer.call_media_type, media);
        ensure_eq!(offer.to_v4(), Some(v4.clone()));
        ensure_eq!(answer.to_v4(), Some(v4.clone()));

        let mut b = vec![];
        c.before.iter().for_each(|l| l.put(&mut b));
        if !c.unknown_only {
            bytes(4, &c.params.wire(&c.inner), &mut b);
        }
        c.after.iter().for_each(|l| l.put(&mut b));
        let whole = b.clone();
        if let Some(cut) = &c.cut {
            b.truncate(*cut as usize % (b.len() + 1));
        }
        let (offer, answer) = (Offer::new(media, b.clone()), Answer::new(b.clone()));
        match fields(&b) {
            None => {
                o.label("refused");
                ensure!(offer.is_err() && answer.is_err(), "an incomplete offer or answer was taken");
            }
            Some(f) => {
                let ours = f.iter().any(|(n, _)| *n == 4);
                let (Ok(offer), Ok(answer)) = (offer, answer) else { harness::fail!("a good offer or answer was refused") };
                ensure_eq!(offer.opaque, b);
                ensure_eq!(answer.opaque, b);
                ensure_eq!(offer.call_media_type, media);
                ensure_eq!(offer.to_v4(), ours.then(|| v4.clone()));
                ensure_eq!(answer.to_v4(), ours.then_some(v4));
                o.label_if(ours && !c.inner.is_empty(), "with unknown parameters");
                o.label_if(!ours && b == whole, "of another version only");
                o.nontrivial_if(ours);
            }
        }
        Ok(())
    });
    r.facet("hangups", "names a device", par(4000), || (any::<i32>(), -3..9i32, any::<u32>()), |&(any, small, device): &(i32, i32, u32), o: &mut Obs| {
        for n in [any, small] {
            let t = HangupType::from_i32(n);
            ensure_eq!(t.is_some(), (0..5).contains(&n));
            let Some(t) = t else { continue };
            ensure_eq!(t as i32, n);
            let h = Hangup::from_type_and_device_id(t, device);
            let want = match n {
                0 => Hangup::Normal,
                1 => Hangup::AcceptedOnAnotherDevice(device),
                2 => Hangup::DeclinedOnAnotherDevice(device),
                3 => Hangup::BusyOnAnotherDevice(device),
                _ => Hangup::NeedPermission(Some(device)),
            };
            ensure_eq!(h, want);
            ensure_eq!(h.to_type_and_device_id(), (t, (n != 0).then_some(device)));
            o.nontrivial_if(n != 0);
        }
        ensure_eq!(Hangup::NeedPermission(None).to_type_and_device_id(), (HangupType::NeedPermission, None));
        Ok(())
    });
}
