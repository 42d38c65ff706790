//! Group rings: one CallManager, its group call clients, and what it tells the platform.
use crate::calls::World;
use prost::Message;
use ringrtc::{
    core::{
        call_manager::{OpaqueRingValidationError, validate_call_message_as_opaque_ring, validate_offer},
        group_call::{ClientId, RingCancelReason, RingId, RingUpdate, SignalingMessageUrgency},
        signaling,
    },
    common::CallMediaType,
    protobuf::signaling::{
        CallMessage,
        call_message::{RingIntention, RingResponse, ring_intention, ring_response},
    },
    webrtc::{
        self,
        media::{AudioTrack, VideoTrack},
    },
};
use std::{
    collections::HashMap,
    sync::Mutex,
    time::{Duration, Instant},
};
use vpcommon::*;

pub fn sent_json(recipient: &[u8], message: &[u8], urgency: SignalingMessageUrgency) -> Value {
    let to = String::from_utf8_lossy(recipient).to_string();
    let u = format!("{urgency:?}");
    match CallMessage::decode(message) {
        Ok(CallMessage { ring_response: Some(r), ring_intention: None, group_call_message: None, .. }) => {
            let t = r.r#type.and_then(|t| ring_response::Type::try_from(t).ok());
            json!({"k": "tell", "g": String::from_utf8_lossy(r.group_id()), "id": r.ring_id(), "t": format!("{:?}", t.unwrap()), "to": to, "u": u})
        }
        m => json!({"k": "msg", "to": to, "u": u, "m": format!("{m:?}")}),
    }
}
pub fn update_json(group: &[u8], ring: RingId, sender: &[u8], update: RingUpdate) -> Value {
    let ring: i64 = ring.into();
    json!({"k": "ring", "g": String::from_utf8_lossy(group), "id": ring, "by": String::from_utf8_lossy(sender), "u": format!("{update:?}")})
}

fn intention(g: &str, id: i64, t: ring_intention::Type) -> CallMessage {
    CallMessage {
        ring_intention: Some(RingIntention { group_id: Some(g.into()), ring_id: Some(id), r#type: Some(t.into()) }),
        ..Default::default()
    }
}
fn response(g: &str, id: i64, t: ring_response::Type) -> CallMessage {
    CallMessage {
        ring_response: Some(RingResponse { group_id: Some(g.into()), ring_id: Some(id), r#type: Some(t.into()) }),
        ..Default::default()
    }
}
fn response_type(t: &str) -> ring_response::Type {
    match t {
        "Ringing" => ring_response::Type::Ringing,
        "Accepted" => ring_response::Type::Accepted,
        "Declined" => ring_response::Type::Declined,
        "Busy" => ring_response::Type::Busy,
        x => panic!("{x}"),
    }
}
fn noise(kind: &str) -> Vec<u8> {
    let mut m = intention("g", 1, ring_intention::Type::Ring);
    let mut r = response("g", 1, ring_response::Type::Accepted);
    match kind {
        "Garbage" => return vec![0xff, 0x07, 0x01],
        "Empty" => m = CallMessage::default(),
        "NoGroup" => m.ring_intention.as_mut().unwrap().group_id = None,
        "NoId" => m.ring_intention.as_mut().unwrap().ring_id = None,
        "NoType" => m.ring_intention.as_mut().unwrap().r#type = None,
        "BadType" => m.ring_intention.as_mut().unwrap().r#type = Some(77),
        "RespNoGroup" => r.ring_response.as_mut().unwrap().group_id = None,
        "RespNoId" => r.ring_response.as_mut().unwrap().ring_id = None,
        "RespBadType" => r.ring_response.as_mut().unwrap().r#type = Some(77),
        x => panic!("{x}"),
    }
    if kind.starts_with("Resp") { r.encode_to_vec() } else { m.encode_to_vec() }
}

fn opaque(kind: &str, age: Duration, wanted: bool) -> String {
    let mut m = intention("g", 5, ring_intention::Type::Ring);
    match kind {
        "Ring" => {}
        "Both" => m.ring_response = response("h", 6, ring_response::Type::Busy).ring_response,
        "Cancelled" => m = intention("g", 5, ring_intention::Type::Cancelled),
        "Response" => m = response("g", 5, ring_response::Type::Accepted),
        "Group" => m = CallMessage { group_call_message: Some(Default::default()), ..Default::default() },
        k => m = CallMessage::decode(&noise(k)[..]).unwrap(),
    }
    let mut asked = vec![];
    let r = validate_call_message_as_opaque_ring(&m, age, |g, id| {
        asked.push((g.to_vec(), id));
        wanted
    });
    let genuine = asked.iter().all(|(g, id)| g == b"g" && *id == RingId::from(5));
    match r {
        _ if !genuine => "asked about something else".into(),
        Ok(()) => "ok".into(),
        Err(OpaqueRingValidationError::NotARing) => "NotARing".into(),
        Err(OpaqueRingValidationError::Expired) => "Expired".into(),
        Err(OpaqueRingValidationError::RejectedByCallback) => "RejectedByCallback".into(),
    }
}

fn age(v: &Value) -> Duration {
    // just past the limit counts as past it
    match v.as_u64().unwrap() {
        61 => Duration::from_nanos(60_000_000_001),
        n => Duration::from_secs(n),
    }
}

fn questions(r: &mut Rng) -> Vec<Value> {
    let mut out = vec![json!({"ev": "Reset"})];
    let kinds = ["Ring", "Both", "Cancelled", "Response", "Group", "Empty", "NoGroup", "NoId", "NoType", "BadType", "RespNoId"];
    for kind in kinds {
        for a in [0u64, 59, 60, 61, 3600] {
            for wanted in [true, false] {
                let res = opaque(kind, age(&json!(a)), wanted);
                out.push(json!({"ev": "Opaque", "kind": if kind == "Both" { "Ring" } else { kind }, "age": a, "wanted": wanted, "obs": {"res": res}}));
            }
        }
    }
    for a in [0u64, 1, 59, 60, 61, 62, r.range(63, 1 << 40)] {
        let received = signaling::ReceivedOffer {
            offer: signaling::Offer::from_v4(CallMediaType::Audio, Default::default()).unwrap(),
            age: age(&json!(a)),
            sender_device_id: 1,
            receiver_device_id: 1,
            sender_identity_key: vec![],
            receiver_identity_key: vec![],
        };
        out.push(json!({"ev": "OfferAge", "age": a.min(1000), "obs": {"res": if validate_offer(&received).is_ok() { "ok" } else { "Expired" }}}));
    }
    out
}

/// None: the machine was too slow for the time limits of the episode to mean anything
fn episode(script: &[Value], seed: u64, limit: Duration) -> Option<Vec<Value>> {
    let mut w = World::new(seed, false);
    let mut out = vec![json!({"ev": "Reset"})];
    let mut clients: HashMap<String, ClientId> = HashMap::new();
    let mut old = vec![];
    let mut calls = 0u64;
    let mut from = Instant::now();
    let mut slow = false;
    let all = catch(|| {
        for op in script {
            let mut e = op.clone();
            e["ev"] = op["op"].clone();
            let g = op["g"].as_str().unwrap_or("").to_string();
            let id = op["id"].as_i64().unwrap_or(0);
            let by = op["by"].as_str().unwrap_or("").to_string().into_bytes();
            let mut res = json!("ok");
            match op["op"].as_str().unwrap() {
                "SetSelf" => w.cm.set_self_uuid(b"me".to_vec()).unwrap(),
                "StartCall" => {
                    calls += 1;
                    w.apply(&json!({"op": "call", "r": "x", "c": calls, "v": "audio"}))
                }
                "EndCall" => w.apply(&json!({"op": "hangup"})),
                "Age" => w.cm.age_all_outstanding_group_rings(Duration::from_secs(op["n"].as_u64().unwrap())),
                "Ring" => {
                    let m = intention(&g, id, ring_intention::Type::Ring).encode_to_vec();
                    w.cm.received_call_message(by, 1, 2, m, age(&op["age"])).unwrap()
                }
                "Withdrawn" => {
                    let m = intention(&g, id, ring_intention::Type::Cancelled).encode_to_vec();
                    w.cm.received_call_message(by, 1, 2, m, Duration::from_secs(op["id"].as_u64().unwrap() * 59)).unwrap()
                }
                "Response" => {
                    let m = response(&g, id, response_type(op["t"].as_str().unwrap())).encode_to_vec();
                    w.cm.received_call_message(by, 1, 2, m, Duration::ZERO).unwrap()
                }
                "Noise" => w.cm.received_call_message(b"me".to_vec(), 1, 2, noise(op["kind"].as_str().unwrap()), Duration::ZERO).unwrap(),
                "Cancel" => {
                    let reason = match op["reason"].as_str().unwrap() {
                        "none" => None,
                        "Busy" => Some(RingCancelReason::Busy),
                        _ => Some(RingCancelReason::DeclinedByUser),
                    };
                    w.cm.cancel_group_ring(g.into_bytes(), RingId::from(id), reason).unwrap()
                }
                "Open" => {
                    let r = w.cm.create_group_call_client(
                        g.clone().into_bytes(),
                        "".to_owned(),
                        vec![],
                        None,
                        0,
                        None,
                        AudioTrack::new(webrtc::Arc::null(), None),
                        VideoTrack::new(webrtc::Arc::null(), None),
                        None,
                    );
                    match r {
                        Ok(c) => {
                            clients.insert(g, c);
                        }
                        Err(_) => res = json!("refused"),
                    }
                }
                "Join" => w.cm.join(clients[&g]),
                "Leave" => w.cm.leave(clients[&g]),
                "Close" => {
                    let c = clients.remove(&g).unwrap();
                    w.cm.disconnect(c);
                    old.push(c);
                }
                "TimeOut" => {
                    slow |= from.elapsed() + Duration::from_millis(300) > limit;
                    std::thread::sleep(limit + Duration::from_millis(150));
                }
                x => panic!("{x}"),
            }
            w.settle();
            let items = std::mem::take(&mut w.platform.log.lock().unwrap().items);
            let items: Vec<Value> = items.into_iter().filter(|i| ["ring", "tell", "msg"].contains(&i["k"].as_str().unwrap())).collect();
            e["obs"] = json!({"out": items, "busy": w.cm.busy(), "res": res});
            out.push(e);
            if op["op"] == "TimeOut" {
                from = Instant::now();
            }
        }
        for (_, c) in clients.drain() {
            w.cm.disconnect(c);
            old.push(c);
        }
        for c in old.drain(..) {
            w.cm.delete_group_call_client(c);
        }
        w.cm.reset().unwrap();
    });
    if let Err(p) = all {
        out.push(json!({"ev": "Panic", "obs": {"panic": p}}));
    }
    slow |= from.elapsed() + Duration::from_millis(300) > limit;
    if slow { None } else { Some(out) }
}

pub fn main(args: &Args) {
    let limit: u64 = std::env::var("INCOMING_GROUP_CALL_RING_SECS").unwrap().parse().unwrap();
    let limit = Duration::from_secs(limit);
    let seed = args.num("seed", 1);
    let out = Mutex::new(args.out());
    for e in questions(&mut Rng::new(seed)) {
        out.lock().unwrap().ev(e);
    }
    let jobs = Mutex::new(args.scripts().into_iter().enumerate());
    let skipped = Mutex::new(0);
    std::thread::scope(|s| {
        for _ in 0..args.num("threads", 24) {
            s.spawn(|| {
                loop {
                    let j = jobs.lock().unwrap().next();
                    let Some((i, script)) = j else { break };
                    match episode(&script, seed * 1000 + i as u64, limit) {
                        Some(l) => {
                            let mut o = out.lock().unwrap();
                            for e in l {
                                o.ev(e);
                            }
                        }
                        None => *skipped.lock().unwrap() += 1,
                    }
                }
            });
        }
    });
    println!("{{\"skipped\":{}}}", skipped.lock().unwrap());
}
