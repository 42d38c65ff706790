//! Key agreement of 1:1 calls: real call managers exchange (possibly altered) offers and answers;
//! what is recorded is the keys each end's media stack was given, as numbers (equal bytes, equal number).
use crate::calls::World;
use ringrtc::{
    common::{CallId, CallMediaType},
    core::signaling,
    protobuf,
};
use std::{
    collections::HashMap,
    time::{Duration, Instant},
};
use vpcommon::*;
use x25519_dalek::{PublicKey, StaticSecret};

fn identity(name: &str) -> Vec<u8> {
    let mut v = vec![5u8];
    v.extend((0..32).map(|i| (name.as_bytes()[0]).wrapping_mul(i * 2 + 1)));
    v
}

const P: &str = "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f";
const LOW: [&str; 7] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    P,
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
];

struct Call {
    a: World,
    bs: HashMap<u64, World>,
    offer: Vec<u8>,
    answers: HashMap<u64, Vec<u8>>,
}

struct Run {
    r: Rng,
    evil: [PublicKey; 2],
    nums: HashMap<Vec<u8>, usize>,
    old_offer: Option<Vec<u8>>,
    old_answer: Option<Vec<u8>>,
    offer: Option<Vec<u8>>,
}

fn public_key(opaque: &[u8], offer: bool) -> Option<Vec<u8>> {
    if offer {
        signaling::Offer::new(CallMediaType::Audio, opaque.to_vec()).ok()?.to_v4()?.public_key
    } else {
        signaling::Answer::new(opaque.to_vec()).ok()?.to_v4()?.public_key
    }
}

impl Run {
    /// what is put in place of a public value
    fn altered(&mut self, how: &str, own: Option<Vec<u8>>, other: Option<Vec<u8>>) -> Option<Vec<u8>> {
        match how {
            "own" => own,
            "other" | "old" => other,
            "evil" => Some(self.evil[0].as_bytes().to_vec()),
            "evil2" => Some(self.evil[1].as_bytes().to_vec()),
            "weak" => {
                let mut k = hex::decode(*self.r.pick(&LOW)).unwrap();
                if self.r.chance(1, 3) {
                    k[31] |= 0x80;
                }
                Some(k)
            }
            "short" => {
                let n = *self.r.pick(&[0usize, 1, 31]);
                own.map(|k| k[..n].to_vec())
            }
            "long" => own.map(|mut k| {
                k.push(0);
                k
            }),
            "none" => None,
            x => panic!("{x}"),
        }
    }
    fn num(&mut self, b: &[u8]) -> usize {
        let n = self.nums.len() + 1;
        *self.nums.entry(b.to_vec()).or_insert(n)
    }
    fn keys(&mut self, w: &World, c: u64, d: u32) -> Value {
        let until = Instant::now() + Duration::from_millis(400);
        loop {
            let pc = w.platform.log.lock().unwrap().pcs.get(&(c, d)).cloned();
            let keys = pc.map(|pc| pc.vp_keys()).unwrap_or_default();
            let ended = w.platform.log.lock().unwrap().items.iter().any(|v| v["e"] == "ended");
            if keys.len() >= 2 {
                let mut o = json!({"st": "plain", "send": [0, 0], "recv": [0, 0], "size": [0, 0, 0, 0], "gcm": true, "desc": []});
                for (end, desc, key) in keys {
                    let f = if end == "local" { "send" } else { "recv" };
                    let desc = if desc.contains("OFFER") { "offer" } else { "answer" };
                    o["desc"].as_array_mut().unwrap().push(json!([f, desc]));
                    if let Some(k) = key {
                        let (a, b) = (self.num(&k.key), self.num(&k.salt));
                        o["st"] = json!("keys");
                        o[f] = json!([a, b]);
                        let at = if f == "send" { 0 } else { 2 };
                        o["size"][at] = json!(k.key.len());
                        o["size"][at + 1] = json!(k.salt.len());
                        o["gcm"] = json!(o["gcm"] == true && k.suite as i32 == 8);
                    }
                }
                let mut d = o["desc"].as_array().unwrap().clone();
                d.sort_by_key(|v| v[0].as_str().unwrap().to_string());
                o["desc"] = json!(d);
                return o;
            }
            if ended {
                return json!({"st": "refused"});
            }
            if Instant::now() > until {
                return json!({"st": "nothing"});
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    fn params(&self, key: Option<Vec<u8>>) -> protobuf::signaling::ConnectionParametersV4 {
        protobuf::signaling::ConnectionParametersV4 {
            public_key: key,
            ice_ufrag: Some("ufrag".into()),
            ice_pwd: Some("pwd".into()),
            receive_video_codecs: vec![],
            decode_only_video_codecs: vec![],
            encode_only_video_codecs: vec![],
            max_bitrate_bps: None,
        }
    }
}

fn sent(w: &World, what: &str) -> Option<Vec<u8>> {
    let log = w.platform.log.lock().unwrap();
    log.wire.iter().rev().find(|(_, t, _)| *t == what).map(|x| x.2.clone())
}
fn wait_sent(w: &World, what: &str) -> Option<Vec<u8>> {
    let until = Instant::now() + Duration::from_millis(400);
    loop {
        let s = sent(w, what);
        let ended = w.platform.log.lock().unwrap().items.iter().any(|v| v["e"] == "ended");
        if s.is_some() || ended || Instant::now() > until {
            return s;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

fn episode(script: &[Value], seed: u64) -> Vec<Value> {
    let mut r = Rng::new(seed);
    let mut secret = || {
        let b: Vec<u8> = (0..32).map(|_| r.below(256) as u8).collect();
        PublicKey::from(&StaticSecret::from(<[u8; 32]>::try_from(b).unwrap()))
    };
    let evil = [secret(), secret()];
    let mut run = Run { r: Rng::new(seed + 1), evil, nums: HashMap::new(), old_offer: None, old_answer: None, offer: None };
    let mut out = vec![json!({"ev": "Reset"})];
    let mut call: Option<Call> = None;
    let mut n = 0u64;
    let all = catch(|| {
        for op in script {
            let mut e = op.clone();
            e["ev"] = op["op"].clone();
            match op["op"].as_str().unwrap() {
                "Call" => {
                    if let Some(mut c) = call.take() {
                        run.old_offer = run.offer.clone();
                        run.old_answer = c.answers.get(&1).and_then(|a| public_key(a, false));
                        c.a.cm.reset().unwrap();
                        for b in c.bs.values_mut() {
                            b.cm.reset().unwrap();
                        }
                    }
                    n += 1;
                    let mut a = World::new(seed + n, false);
                    a.apply(&json!({"op": "call", "r": "b", "c": n, "v": "audio"}));
                    a.apply(&json!({"op": "proceed", "c": n, "m": "normal"}));
                    let offer = wait_sent(&a, "offer").expect("an offer is sent");
                    a.apply(&json!({"op": "sent", "c": n}));
                    run.offer = public_key(&offer, true);
                    let k = run.offer.clone().unwrap_or_default();
                    e["obs"] = json!({"pub": run.num(&k), "len": k.len()});
                    call = Some(Call { a, bs: HashMap::new(), offer, answers: HashMap::new() });
                }
                "Offer" => {
                    let c = call.as_mut().unwrap();
                    let d = op["d"].as_u64().unwrap();
                    let own = public_key(&c.offer, true);
                    let old = run.old_offer.clone();
                    let key = run.altered(op["how"].as_str().unwrap(), own, old);
                    let mut b = World::new(seed + 100 + n * 10 + d, false);
                    let received = signaling::ReceivedOffer {
                        offer: signaling::Offer::from_v4(CallMediaType::Audio, run.params(key)).unwrap(),
                        age: Duration::from_secs(0),
                        sender_device_id: 1,
                        receiver_device_id: d as u32,
                        sender_identity_key: identity(op["ids"][0].as_str().unwrap()),
                        receiver_identity_key: identity(op["ids"][1].as_str().unwrap()),
                    };
                    b.cm.received_offer("a".to_string(), CallId::new(n), received).unwrap();
                    b.apply(&json!({"op": "proceed", "c": n, "m": "normal"}));
                    let answer = wait_sent(&b, "answer");
                    let mut o = run.keys(&b, n, 1);
                    o["answered"] = json!(answer.is_some());
                    if let Some(a) = answer {
                        let k = public_key(&a, false).unwrap_or_default();
                        o["pub"] = json!(run.num(&k));
                        c.answers.insert(d, a);
                    } else {
                        o["pub"] = json!(0);
                    }
                    e["obs"] = o;
                    c.bs.insert(d, b);
                }
                "Answer" => {
                    let c = call.as_mut().unwrap();
                    let d = op["d"].as_u64().unwrap();
                    let own = c.answers.get(&d).and_then(|a| public_key(a, false));
                    let other = if op["how"] == "old" { run.old_answer.clone() } else { c.answers.get(&(3 - d)).and_then(|a| public_key(a, false)) };
                    let key = run.altered(op["how"].as_str().unwrap(), own, other);
                    let received = signaling::ReceivedAnswer {
                        answer: signaling::Answer::from_v4(run.params(key)).unwrap(),
                        sender_device_id: d as u32,
                        sender_identity_key: identity(op["ids"][1].as_str().unwrap()),
                        receiver_identity_key: identity(op["ids"][0].as_str().unwrap()),
                    };
                    c.a.cm.received_answer("b".to_string(), CallId::new(n), received).unwrap();
                    e["obs"] = run.keys(&c.a, n, d as u32);
                }
                x => panic!("{x}"),
            }
            out.push(e);
        }
        if let Some(mut c) = call.take() {
            c.a.cm.reset().unwrap();
            for b in c.bs.values_mut() {
                b.cm.reset().unwrap();
            }
        }
    });
    if let Err(p) = all {
        out.push(json!({"ev": "Panic", "obs": {"panic": p}}));
    }
    out
}

pub fn main(args: &Args) {
    let mut out = args.out();
    let seed = args.num("seed", 1);
    for (i, s) in args.scripts().into_iter().enumerate() {
        for e in episode(&s, seed * 100_000 + i as u64 * 1000) {
            out.ev(e);
        }
    }
}
