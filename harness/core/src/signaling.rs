//! core/signaling.rs: offers, answers, candidates, hangups on the wire.
use std::net::{IpAddr, SocketAddr};

use prost::Message as _;
use ringrtc::{
    common::CallMediaType,
    core::signaling::{Answer, Hangup, HangupType, IceCandidate, Offer},
    protobuf::signaling as pb,
};
use vpcommon::*;

fn digits(mut n: u64) -> Vec<u64> {
    let mut d = vec![];
    while n > 0 {
        d.push(n % 128);
        n /= 128;
    }
    d
}
fn opt<T: serde_json::value::Index, U>(o: &Option<U>, f: impl Fn(&U) -> Value) -> Value
where
    T: ?Sized,
{
    json!(o.iter().map(f).collect::<Vec<_>>())
}
fn codecs(c: &[pb::VideoCodec]) -> Value {
    json!(c.iter().map(|c| opt::<str, _>(&c.r#type, |t| json!(digits(*t as u32 as u64)))).collect::<Vec<_>>())
}
fn params(p: &pb::ConnectionParametersV4) -> Value {
    json!({
        "public_key": opt::<str, _>(&p.public_key, |b| json!(b)),
        "ice_ufrag": opt::<str, _>(&p.ice_ufrag, |b| json!(b.as_bytes())),
        "ice_pwd": opt::<str, _>(&p.ice_pwd, |b| json!(b.as_bytes())),
        "receive": codecs(&p.receive_video_codecs),
        "bitrate": opt::<str, _>(&p.max_bitrate_bps, |n| json!(digits(*n))),
        "encode": codecs(&p.encode_only_video_codecs),
        "decode": codecs(&p.decode_only_video_codecs),
    })
}

fn ask(tr: &mut Tracer, mut v: Value, f: impl FnOnce() -> Value) {
    match catch(f) {
        Ok(o) => v["obs"] = o,
        Err(p) => v = json!({"ev": "Panic", "obs": {"panic": format!("{p} at {v}")}}),
    }
    tr.ev(v);
}

fn says(o: Option<pb::ConnectionParametersV4>) -> Value {
    opt::<str, _>(&o, params)
}

fn read(tr: &mut Tracer, bytes: &[u8]) {
    ask(tr, json!({"ev": "Read", "what": "offer", "bytes": bytes}), || {
        match Offer::new(CallMediaType::Audio, bytes.to_vec()) {
            Ok(o) => json!({"v": [says(o.to_v4())]}),
            Err(_) => json!({"v": []}),
        }
    });
    ask(tr, json!({"ev": "Read", "what": "answer", "bytes": bytes}), || match Answer::new(bytes.to_vec()) {
        Ok(o) => json!({"v": [says(o.to_v4())]}),
        Err(_) => json!({"v": []}),
    });
    ask(tr, json!({"ev": "Cand", "bytes": bytes}), || {
        let c = IceCandidate::new(bytes.to_vec());
        json!({"sdp": opt::<str, _>(&c.v3_sdp(), |s| json!(s.as_bytes())),
               "removed": opt::<str, _>(&c.removed_address(), addr)})
    });
}

fn addr(a: &SocketAddr) -> Value {
    let ip = match a.ip() {
        IpAddr::V4(x) => x.octets().to_vec(),
        IpAddr::V6(x) => x.octets().to_vec(),
    };
    json!({"ip": ip, "port": a.port()})
}

fn text(r: &mut Rng) -> String {
    (0..r.below(6)).map(|_| *r.pick(&['a', '+', '/', 'Z', 'é', '\u{1F600}', '\0', ' '])).collect()
}
fn some<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> Option<T> {
    if r.chance(1, 5) { None } else { Some(f(r)) }
}
fn rand_params(r: &mut Rng) -> pb::ConnectionParametersV4 {
    let cs = |r: &mut Rng| -> Vec<pb::VideoCodec> {
        (0..r.below(4)).map(|_| pb::VideoCodec { r#type: some(r, |r| *r.pick(&[8, 9, 40, 46, 0, -1, 300])) }).collect()
    };
    pb::ConnectionParametersV4 {
        public_key: some(r, |r| (0..r.below(33)).map(|_| r.next() as u8).collect()),
        ice_ufrag: some(r, text),
        ice_pwd: some(r, text),
        receive_video_codecs: cs(r),
        max_bitrate_bps: some(r, |r| *r.pick(&[0, 1, 127, 128, 300_000, 2_000_000, u32::MAX as u64, u64::MAX])),
        encode_only_video_codecs: cs(r),
        decode_only_video_codecs: cs(r),
    }
}

fn make(tr: &mut Tracer, r: &mut Rng) -> Vec<u8> {
    let p = rand_params(r);
    let media = r.below(2);
    let mut bytes = vec![];
    if r.chance(1, 2) {
        let mt = if media == 0 { CallMediaType::Audio } else { CallMediaType::Video };
        ask(tr, json!({"ev": "Make", "what": "offer", "params": params(&p), "media": media}), || {
            let o = Offer::from_v4(mt, p.clone()).expect("offer");
            bytes = o.opaque.clone();
            json!({"bytes": o.opaque, "back": [[params(&o.to_v4().expect("v4"))]], "media": (o.call_media_type == CallMediaType::Video) as u8})
        });
    } else {
        ask(tr, json!({"ev": "Make", "what": "answer", "params": params(&p), "media": 0}), || {
            let o = Answer::from_v4(p.clone()).expect("answer");
            bytes = o.opaque.clone();
            json!({"bytes": o.opaque, "back": [[params(&o.to_v4().expect("v4"))]], "media": 0})
        });
    }
    bytes
}

fn cand(tr: &mut Tracer, r: &mut Rng) -> Vec<u8> {
    let mut bytes = vec![];
    if r.chance(1, 2) {
        let s = format!("candidate:{}", text(r));
        ask(tr, json!({"ev": "Add", "sdp": s.as_bytes()}), || {
            bytes = IceCandidate::from_v3_sdp(s.clone()).expect("candidate").opaque;
            json!({"bytes": bytes})
        });
    } else {
        let port = *r.pick(&[0, 1, 80, 127, 128, 1024, 32767, 32768, 65535]);
        let ip = if r.chance(1, 2) {
            IpAddr::from([*r.pick(&[0u8, 10, 127, 255]), r.next() as u8, 0, 1])
        } else {
            let mut o = [0u8; 16];
            match r.below(3) {
                0 => o[15] = 1,
                1 => (o[10], o[11], o[12], o[15]) = (255, 255, 10, 1), // v4-mapped
                _ => o.iter_mut().for_each(|b| *b = r.next() as u8),
            }
            IpAddr::from(o)
        };
        let a = SocketAddr::new(ip, port);
        let mut v = addr(&a);
        v["ev"] = json!("Remove");
        ask(tr, v, || {
            bytes = IceCandidate::from_removed_address(a).expect("removal").opaque;
            json!({"bytes": bytes})
        });
    }
    bytes
}

fn hangup(tr: &mut Tracer, typ: i32, dev: u32) {
    ask(tr, json!({"ev": "Hangup", "typ": typ, "device": dev}), || match HangupType::from_i32(typ) {
        None => json!({"kind": "none", "dev": [], "typ": 9}),
        Some(t) => {
            let h = Hangup::from_type_and_device_id(t, dev);
            let kind = match h {
                Hangup::Normal => "Normal",
                Hangup::AcceptedOnAnotherDevice(_) => "AcceptedOnAnotherDevice",
                Hangup::DeclinedOnAnotherDevice(_) => "DeclinedOnAnotherDevice",
                Hangup::BusyOnAnotherDevice(_) => "BusyOnAnotherDevice",
                Hangup::NeedPermission(_) => "NeedPermission",
            };
            let (t2, d2) = h.to_type_and_device_id();
            json!({"kind": kind, "dev": opt::<str, _>(&d2, |d| json!(d)), "typ": t2 as i32})
        }
    });
}

pub fn main(args: &Args) {
    let mut tr = args.out();
    let mut r = Rng::new(args.num("seed", 1));
    for (i, s) in args.scripts().iter().enumerate() {
        if i % 100 == 0 {
            tr.ev(json!({"ev": "Reset"}));
        }
        let b: Vec<u8> = s.iter().map(|x| x.as_u64().unwrap() as u8).collect();
        read(&mut tr, &b);
    }
    for _ in 0..args.num("n", 0) {
        tr.ev(json!({"ev": "Reset"}));
        for _ in 0..4 {
            let mut b = if r.chance(1, 2) { make(&mut tr, &mut r) } else { cand(&mut tr, &mut r) };
            read(&mut tr, &b);
            let other = if r.chance(1, 2) {
                pb::Offer { v4: Some(rand_params(&mut r)) }.encode_to_vec()
            } else {
                pb::IceCandidate {
                    added_v3: some(&mut r, |r| pb::IceCandidateV3 { sdp: some(r, text) }),
                    removed: some(&mut r, |r| pb::SocketAddr {
                        ip: some(r, |r| vec![7; *r.pick(&[0, 3, 4, 4, 5, 15, 16, 16, 17])]),
                        port: some(r, |r| *r.pick(&[0, 1, 65535, 65536, 65537, 131071, u32::MAX])),
                    }),
                }
                .encode_to_vec()
            };
            read(&mut tr, &other);
            match r.below(4) {
                0 => b.extend(other),
                1 => b.truncate(r.below(b.len() as u64 + 1) as usize),
                2 if !b.is_empty() => {
                    let i = r.below(b.len() as u64) as usize;
                    b[i] = r.next() as u8;
                }
                _ => {
                    let i = r.below(b.len() as u64 + 1) as usize;
                    b.insert(i, *r.pick(&[0, 1, 2, 8, 18, 24, 34, 128, 255]));
                }
            }
            read(&mut tr, &b);
        }
        let noise: Vec<u8> = (0..r.below(12)).map(|_| *r.pick(&[0, 1, 2, 4, 8, 10, 18, 26, 34, 36, 35, 128, 255])).collect();
        read(&mut tr, &noise);
        let (t, d) = (r.below(7) as i32 - 1, *r.pick(&[0u32, 1, 2, 127, 1 << 30]));
        hangup(&mut tr, t, d);
    }
    tr.ev(json!({"ev": "Reset"}));
    for t in -3..20 {
        for d in [0, 1, 2, 300] {
            hangup(&mut tr, t, d);
        }
    }
}
