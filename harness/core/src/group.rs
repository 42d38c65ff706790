//! One group call client against a simulated server, simulated participants and a recording application.
use prost::Message;
use ringrtc::{
    common::{CallEndReason, DataMode, units::DataRate},
    core::{
        assets::AssetRegistry,
        call_mutex::CallMutex,
        call_summary::CallSummary,
        crypto::{self, Context},
        endorsements::EndorsementUpdateResultRef,
        group_call::{
            Client, ClientId, ClientStartParams, ConnectionState, GroupCallKind, GroupId, JoinState, Joined, Observer, Reaction,
            RemoteDeviceState, RemoteDevicesChangedReason, SfuClient, SfuInfo, SignalingMessageUrgency, SpeechEvent, VideoRequest,
        },
    },
    lite::sfu::{
        DemuxId, GroupMember, MemberResolver, MembershipProof, ObfuscatedResolver, PeekDeviceInfo, PeekInfo, PeekResultCallback, UserId,
    },
    protobuf::{
        group_call::{
            DeviceToDevice, DeviceToSfu, MrpHeader, RemoteMuteRequest, SfuToDevice,
            device_to_device::{Heartbeat, Leaving, MediaKey, Reaction as ReactionProto},
            device_to_sfu::AdminAction,
            sfu_to_device::{self, DeviceJoinedOrLeft, RaisedHands, Removed, Speaker},
        },
        signaling::{CallMessage, call_message::ring_intention},
    },
    webrtc::{
        self,
        media::{AudioTrack, VideoTrack},
        peer_connection::{AudioLevel, ReceivedAudioLevel, SendRates},
        peer_connection_observer::{IceConnectionState, NetworkRoute},
        rtp,
        sim::media::FAKE_AUDIO_TRACK,
    },
};
use sha2::{Digest, Sha256};
use std::{
    collections::{HashMap, HashSet, VecDeque},
    sync::{Arc, Mutex, mpsc},
    time::{Duration, Instant},
};
use vpcommon::*;

const LOCAL: DemuxId = 1;
const ME: &str = "me";

fn owner(d: u64) -> Option<&'static str> {
    match d {
        1..=9 => Some(ME),
        10..=19 => Some("a"),
        20..=29 => Some("b"),
        30..=39 => Some("c"),
        _ => None,
    }
}
fn uid(u: &str) -> UserId {
    u.as_bytes().to_vec()
}
fn name(u: &[u8]) -> String {
    String::from_utf8_lossy(u).to_string()
}
fn opaque(u: &str) -> String {
    hex::encode(Sha256::digest(format!("member {u}")))
}

/// For calls without a member list: everyone is known
struct Everyone;
impl MemberResolver for Everyone {
    fn resolve(&self, id: &str) -> Option<UserId> {
        [ME, "a", "b", "c"].iter().find(|u| opaque(u) == id).map(|u| uid(u))
    }
    fn resolve_bytes(&self, id: &[u8]) -> Option<UserId> {
        self.resolve(&hex::encode(id))
    }
}

/// what the client did, in order
enum Act {
    Note(&'static str, Value),
    Key { group: bool, to: Vec<String>, rc: u32, secret: Vec<u8>, whose: u32, good: bool },
    Bye { group: bool, to: Vec<String>, good: bool },
    Ring(&'static str),
    Packet(rtp::Header, Vec<u8>),
}

#[derive(Default)]
struct World {
    log: Mutex<Vec<Act>>,
    joins: Mutex<Vec<Client>>,
    peeks: Mutex<VecDeque<PeekResultCallback>>,
}
impl World {
    fn put(&self, cat: &'static str, v: Value) {
        self.log.lock().unwrap().push(Act::Note(cat, v));
    }
}

struct Sfu(Arc<World>);
impl SfuClient for Sfu {
    fn join(&mut self, ufrag: &str, pwd: &str, _dhe: [u8; 32], client: Client) {
        let good = !ufrag.is_empty() && !pwd.is_empty();
        self.0.put("life", json!([if good { "sfujoin" } else { "sfujoin without credentials" }]));
        self.0.joins.lock().unwrap().push(client);
    }
    fn peek(&mut self, callback: PeekResultCallback) {
        self.0.put("peeks", json!(["ask"]));
        self.0.peeks.lock().unwrap().push_back(callback);
    }
    fn set_membership_proof(&mut self, proof: MembershipProof) {
        assert_eq!(proof, b"proof");
        self.0.put("life", json!(["sfuproof"]));
    }
    fn set_group_members(&mut self, _members: Vec<GroupMember>) {
        self.0.put("life", json!(["sfumembers"]));
    }
}

struct App(Arc<World>);
impl App {
    fn sent(&self, group: bool, to: Vec<String>, m: CallMessage, urgency: SignalingMessageUrgency) {
        let mut log = self.0.log.lock().unwrap();
        match m {
            CallMessage { ring_intention: Some(r), group_call_message: None, ring_response: None, .. } => {
                let mut what = match r.r#type.and_then(|t| ring_intention::Type::try_from(t).ok()) {
                    Some(ring_intention::Type::Ring) => "ring",
                    Some(ring_intention::Type::Cancelled) => "cancel",
                    _ => "unknown intention",
                };
                let all = group && to.is_empty();
                if !all || urgency != SignalingMessageUrgency::HandleImmediately || r.group_id() != b"g" {
                    what = "wrong intention";
                }
                log.push(Act::Ring(what));
            }
            CallMessage {
                group_call_message: Some(DeviceToDevice { group_id, media_key: Some(k), heartbeat: None, leaving: None, .. }),
                ring_intention: None,
                ..
            } => log.push(Act::Key {
                group,
                to,
                rc: k.ratchet_counter(),
                secret: k.secret().to_vec(),
                whose: k.demux_id(),
                good: urgency == SignalingMessageUrgency::Droppable && group_id.as_deref() == Some(b"g"),
            }),
            CallMessage {
                group_call_message: Some(DeviceToDevice { group_id, media_key: None, leaving: Some(l), .. }), ring_intention: None, ..
            } => log.push(Act::Bye {
                group,
                to,
                good: urgency == SignalingMessageUrgency::Droppable && group_id.as_deref() == Some(b"g") && l.demux_id() == LOCAL,
            }),
            m => log.push(Act::Note("life", json!([format!("unexpected message {m:?}")]))),
        }
    }
}
fn conn(c: ConnectionState) -> &'static str {
    match c {
        ConnectionState::NotConnected => "NotConnected",
        ConnectionState::Connecting => "Connecting",
        ConnectionState::Connected => "Connected",
        ConnectionState::Reconnecting => "Reconnecting",
    }
}
fn rate(r: Option<DataRate>) -> u64 {
    r.map_or(0, |r| r.as_kbps())
}
fn tri(b: Option<bool>) -> &'static str {
    match b {
        None => "n",
        Some(true) => "t",
        Some(false) => "f",
    }
}
fn sorted<T: Ord>(i: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = i.into_iter().collect();
    v.sort();
    v
}
impl Observer for App {
    fn request_membership_proof(&self, _: ClientId) {
        self.0.put("life", json!(["proof"]));
    }
    fn request_group_members(&self, _: ClientId) {
        self.0.put("life", json!(["members"]));
    }
    fn send_signaling_message(&mut self, to: UserId, m: CallMessage, u: SignalingMessageUrgency) {
        self.sent(false, vec![name(&to)], m, u);
    }
    fn send_signaling_message_to_group(&mut self, _: GroupId, m: CallMessage, u: SignalingMessageUrgency, to: HashSet<UserId>) {
        self.sent(true, to.iter().map(|u| name(u)).collect(), m, u);
    }
    fn send_signaling_message_to_adhoc_group(
        &mut self,
        m: CallMessage,
        u: SignalingMessageUrgency,
        _: u64,
        to: HashMap<UserId, Vec<u8>>,
    ) {
        self.sent(true, to.keys().map(|u| name(u)).collect(), m, u);
    }
    fn handle_connection_state_changed(&self, _: ClientId, c: ConnectionState) {
        self.0.put("life", json!(["conn", conn(c)]));
    }
    fn handle_network_route_changed(&self, _: ClientId, _: NetworkRoute) {}
    fn handle_join_state_changed(&self, _: ClientId, j: JoinState) {
        let j = match j {
            JoinState::NotJoined(_) => "NotJoined",
            JoinState::Joining => "Joining",
            JoinState::Pending(LOCAL) => "Pending",
            JoinState::Joined(LOCAL) => "Joined",
            _ => "joined as someone else",
        };
        self.0.put("life", json!(["join", j]));
    }
    fn handle_send_rates_changed(&self, _: ClientId, r: SendRates) {
        self.0.put("rates", json!({"min": rate(r.min), "start": rate(r.start), "max": rate(r.max)}));
    }
    fn handle_remote_devices_changed(&self, _: ClientId, devices: &[RemoteDeviceState], why: RemoteDevicesChangedReason) {
        let list: Vec<Value> = devices
            .iter()
            .map(|d| {
                let h = &d.heartbeat_state;
                json!({"d": d.demux_id, "u": name(&d.user_id), "keys": d.media_keys_received, "am": tri(h.audio_muted), "vm": tri(h.video_muted),
                       "pr": tri(h.presenting), "ss": tri(h.sharing_screen), "leaving": d.leaving_received})
            })
            .collect();
        self.0.put("devs", json!({"why": format!("{why:?}"), "list": list}));
    }
    fn handle_peek_changed(&self, _: ClientId, p: &PeekInfo, members: &HashSet<UserId>) {
        let ids = |l: &[PeekDeviceInfo]| l.iter().map(|d| d.demux_id).collect::<Vec<_>>();
        let members = sorted(members.iter().map(|u| name(u)));
        self.0.put("peeks", json!(["show", members, ids(&p.devices), ids(&p.pending_devices), p.era_id.clone().unwrap_or_default()]));
    }
    fn handle_incoming_video_track(&mut self, _: ClientId, _: DemuxId, _: VideoTrack) {}
    fn handle_speaking_notification(&mut self, _: ClientId, _: SpeechEvent) {}
    fn handle_audio_levels(&self, _: ClientId, _: AudioLevel, _: Vec<ReceivedAudioLevel>) {}
    fn handle_low_bandwidth_for_video(&self, _: ClientId, _: bool) {}
    fn handle_reactions(&self, _: ClientId, reactions: Vec<Reaction>) {
        for r in reactions {
            self.0.put("reacts", json!([r.demux_id.to_string(), r.value]));
        }
    }
    fn handle_raised_hands(&self, _: ClientId, hands: Vec<DemuxId>) {
        self.0.put("hands", json!(hands));
    }
    fn handle_remote_mute_request(&self, _: ClientId, by: DemuxId) {
        self.0.put("mutes", json!(by));
    }
    fn handle_observed_remote_mute(&self, _: ClientId, by: DemuxId, d: DemuxId) {
        self.0.put("muted", json!([by, d]));
    }
    fn handle_rtc_stats_report(&self, _: String) {}
    fn handle_ended(&self, _: ClientId, reason: CallEndReason, _: CallSummary) {
        self.0.put("life", json!(["ended", format!("{reason:?}")]));
    }
    fn handle_endorsements_update(&self, _: ClientId, _: EndorsementUpdateResultRef) {}
}

/// the secrets a sender goes through, and frames of theirs
struct Lineage {
    chain: Vec<crypto::Secret>,
    receiver: Context,
}
impl Lineage {
    fn new(first: crypto::Secret) -> Self {
        let mut sender = Context::new(first);
        let mut chain = vec![first];
        for _ in 0..64 {
            chain.push(sender.advance_send_ratchet().1);
        }
        let mut receiver = Context::new([0; 32]);
        receiver.add_receive_secret(LOCAL, 0, first);
        Lineage { chain, receiver }
    }
}
fn open(c: &mut Context, from: DemuxId, frame: &[u8]) -> Option<(u8, Vec<u8>)> {
    let n = frame.len().checked_sub(21)?;
    let (body, foot) = frame.split_at(n);
    let counter = u32::from_be_bytes(foot[1..5].try_into().unwrap());
    let mut body = body.to_vec();
    let mac: crypto::Mac = foot[5..].try_into().unwrap();
    c.decrypt(from, foot[0], counter as u64, &mut body, &mac).ok()?;
    Some((foot[0], body))
}
fn seal(c: &mut Context, body: &[u8]) -> Vec<u8> {
    let mut out = body.to_vec();
    let mut mac = crypto::Mac::default();
    let (rc, counter) = c.encrypt(&mut out, &mut mac).unwrap();
    out.push(rc);
    out.extend((counter as u32).to_be_bytes());
    out.extend(mac);
    out
}

struct Run {
    world: Arc<World>,
    client: Client,
    busy: Arc<CallMutex<bool>>,
    lineages: Vec<Lineage>,
    theirs: HashMap<(u64, u64), Context>,
    seq: u32,
    reliable: u64,
}

fn secret_of(d: u64, k: u64) -> crypto::Secret {
    Sha256::digest(format!("secret {k} of {d}")).into()
}

impl Run {
    fn new(kind: &str) -> Self {
        let world = Arc::new(World::default());
        let busy = Arc::new(CallMutex::new(false, "busy"));
        let client = Client::start(ClientStartParams {
            group_id: b"g".to_vec(),
            client_id: 7,
            kind: if kind == "group" { GroupCallKind::SignalGroup } else { GroupCallKind::CallLink },
            sfu_client: Box::new(Sfu(world.clone())),
            obfuscated_resolver: ObfuscatedResolver::new(Arc::new(Everyone), None, None),
            observer: Box::new(App(world.clone())),
            busy: busy.clone(),
            self_uuid: Arc::new(CallMutex::new(Some(uid(ME)), "self")),
            asset_registry: AssetRegistry::default(),
            peer_connection_factory: None,
            outgoing_audio_track: AudioTrack::new(
                webrtc::Arc::from_owned(unsafe { webrtc::ptr::OwnedRc::from_ptr(&FAKE_AUDIO_TRACK as *const u32) }),
                None,
            ),
            outgoing_video_track: None,
            incoming_video_sink: None,
            ring_id: None,
            dred_duration: 0,
            audio_levels_interval: None,
            group_send_endorsement_cache: None,
        })
        .expect("client");
        let w = world.clone();
        client.vp_set_rtp_sink(Box::new(move |header, payload| {
            w.log.lock().unwrap().push(Act::Packet(header, payload.to_vec()));
        }));
        let (_, first) = client.vp_send_state();
        Run { world, client, busy, lineages: vec![Lineage::new(first)], theirs: HashMap::new(), seq: 0, reliable: 0 }
    }

    /// let the client finish what it has been given
    fn settle(&self, delay: Duration) {
        let (tx, rx) = mpsc::channel();
        let (tx1, client) = (tx.clone(), self.client.clone());
        // what is queued may queue more
        self.client.vp_run(move || {
            let c = client.clone();
            client.vp_run(move || {
                let c2 = c.clone();
                c.vp_run(move || c2.vp_run_after(delay, move || tx1.send(()).unwrap_or(())));
            });
        });
        drop(tx);
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(()) | Err(mpsc::RecvTimeoutError::Disconnected) => {}
            Err(e) => panic!("the client does not answer: {e}"),
        }
    }

    fn server(&mut self, m: SfuToDevice, timestamp: Option<u32>) {
        self.seq += 1;
        let header = rtp::Header { pt: 101, seqnum: self.seq as u16, timestamp: timestamp.unwrap_or(self.seq), ssrc: 1 };
        self.client.vp_rtp(header, &m.encode_to_vec());
    }
    fn participant(&mut self, op: &Value, ts: u32, m: DeviceToDevice) {
        let (d, k) = (op["d"].as_u64().unwrap(), op["k"].as_u64().unwrap());
        let c = self.theirs.entry((d, k)).or_insert_with(|| Context::new(secret_of(d, k)));
        let payload = seal(c, &m.encode_to_vec());
        self.client.vp_rtp(rtp::Header { pt: 101, seqnum: ts as u16, timestamp: ts, ssrc: d as u32 + 0xD }, &payload);
    }
    /// which of its own keys the client has protected this with
    fn locate(&mut self, frame: &[u8]) -> Option<(usize, u8, Vec<u8>)> {
        for (i, l) in self.lineages.iter_mut().enumerate() {
            if let Some((rc, body)) = open(&mut l.receiver, LOCAL, frame) {
                return Some((i + 1, rc, body));
            }
        }
        None
    }
    fn key_name(&mut self, rc: u32, secret: &[u8]) -> (usize, Value) {
        let secret: crypto::Secret = match secret.try_into() {
            Ok(s) => s,
            Err(_) => return (0, json!("wrong length")),
        };
        for (i, l) in self.lineages.iter().enumerate() {
            if let Some(at) = l.chain.iter().position(|s| *s == secret) {
                return (i + 1, if at == rc as usize { json!(rc) } else { json!("wrong counter") });
            }
        }
        if rc != 0 {
            return (0, json!("unknown secret"));
        }
        self.lineages.push(Lineage::new(secret));
        (self.lineages.len(), json!(0))
    }

    fn wire(&mut self, header: rtp::Header, payload: Vec<u8>) -> Option<Value> {
        if header.pt != 101 {
            return Some(json!(["wrong payload type"]));
        }
        if header.ssrc == 1 {
            let Ok(m) = DeviceToSfu::decode(&payload[..]) else { return Some(json!(["cannot be read"])) };
            if m.stats.is_some() {
                return None;
            }
            if let Some(v) = m.video_request {
                let mut item = vec!["video".to_string(), v.max_kbps().to_string(), v.active_speaker_height().to_string()];
                for r in &v.requests {
                    item.extend([r.demux_id().to_string(), r.height().to_string()]);
                }
                return Some(json!(item));
            }
            if m.leave.is_some() {
                return Some(json!(["leave"]));
            }
            if let Some(r) = m.raise_hand {
                return Some(json!(["raise", tri(r.raise), r.seqnum().to_string()]));
            }
            if let Some(a) = m.admin_action {
                let (what, a) = match a {
                    AdminAction::Approve(a) => ("approve", a),
                    AdminAction::Deny(a) => ("deny", a),
                    AdminAction::Remove(a) => ("remove", a),
                    AdminAction::Block(a) => ("block", a),
                };
                let seq = m.mrp_header.as_ref().map_or(0, |h| h.seqnum());
                return Some(json!(["admin", what, a.target_demux_id().to_string(), seq.to_string()]));
            }
            if m.mrp_header.is_some() {
                return None;
            }
            return Some(json!(["nothing"]));
        }
        if header.ssrc != LOCAL + 0xD {
            return Some(json!(["wrong source"]));
        }
        let Some((_, _, body)) = self.locate(&payload) else { return Some(json!(["with an unknown key"])) };
        let Ok(m) = DeviceToDevice::decode(&body[..]) else { return Some(json!(["cannot be read"])) };
        Some(match m {
            DeviceToDevice { heartbeat: Some(h), .. } => json!([
                "hb",
                tri(h.audio_muted),
                tri(h.video_muted),
                tri(h.presenting),
                tri(h.sharing_screen),
                h.muted_by_demux_id().to_string()
            ]),
            DeviceToDevice { leaving: Some(_), .. } => json!(["leaving"]),
            DeviceToDevice { reaction: Some(r), .. } => json!(["react", r.value()]),
            DeviceToDevice { remote_mute_request: Some(r), .. } => json!(["mutereq", r.target_demux_id().to_string()]),
            _ => json!(["nothing"]),
        })
    }

    /// everything done since the last time, by category
    fn collect(&mut self) -> Value {
        let log = std::mem::take(&mut *self.world.log.lock().unwrap());
        let mut o: HashMap<&str, Vec<Value>> =
            ["life", "ring", "bye", "keys", "devs", "peeks", "rates", "hands", "muted", "wire", "reacts", "mutes"].map(|c| (c, vec![])).into();
        let send = |list: &mut Vec<Value>, head: Value, group: bool, to: Vec<String>| {
            let field = if group { "group" } else { "to" };
            if let Some(last) = list.last_mut() {
                if last["head"] == head && (!group || last["group"].as_array().unwrap().is_empty()) {
                    let a = last[field].as_array_mut().unwrap();
                    a.extend(to.iter().map(|t| json!(t)));
                    a.sort_by_key(|v| v.as_str().unwrap().to_string());
                    return;
                }
            }
            let mut e = json!({"head": head, "group": [], "to": []});
            e[field] = json!(sorted(to));
            list.push(e);
        };
        // the client may take a new key into use with nobody there to be told
        let (rc, secret) = self.client.vp_send_state();
        if rc == 0 {
            self.key_name(0, &secret);
        }
        for act in log {
            match act {
                Act::Note(cat, v) => o.get_mut(cat).unwrap().push(v),
                Act::Ring(what) => o.get_mut("ring").unwrap().push(json!([what])),
                Act::Key { group, to, rc, secret, whose, good } => {
                    let (lin, rc) = self.key_name(rc, &secret);
                    let head = if good && whose == LOCAL { json!([lin, rc]) } else { json!("malformed") };
                    send(o.get_mut("keys").unwrap(), head, group, to);
                }
                Act::Bye { group, to, good } => send(o.get_mut("bye").unwrap(), json!(if good { "bye" } else { "malformed" }), group, to),
                Act::Packet(h, p) => {
                    if let Some(item) = self.wire(h, p) {
                        if item[0] == "admin" {
                            let seq: u64 = item[3].as_str().unwrap().parse().unwrap();
                            let ack = MrpHeader { ack_num: Some(seq + 1), ..Default::default() };
                            self.server(SfuToDevice { mrp_header: Some(ack), ..Default::default() }, None);
                        }
                        o.get_mut("wire").unwrap().push(item);
                    }
                }
            }
        }
        json!(o)
    }

    fn apply(&mut self, op: &Value) -> (Value, Duration) {
        let none = Duration::ZERO;
        let end = Duration::from_millis(30);
        let b = op["b"].as_bool().unwrap_or(false);
        let d = op["d"].as_u64().unwrap_or(0) as u32;
        let u = op["u"].as_str().unwrap_or("").to_string();
        let client = self.client.clone();
        let peek = || PeekInfo {
            devices: devices(&op["p"]["devs"]),
            pending_devices: devices(&op["p"]["pend"]),
            creator: None,
            era_id: op["p"]["era"].as_str().filter(|e| !e.is_empty()).map(|e| e.to_string()),
            max_devices: Some(16),
            call_link_state: None,
        };
        let mut res = json!("ok");
        let mut delay = none;
        match op["op"].as_str().unwrap() {
            "Connect" => client.connect(),
            "Join" => {
                client.join();
                delay = end;
            }
            "Leave" => client.leave(),
            "Disconnect" => {
                client.disconnect();
                delay = end;
            }
            "DisconnectTwice" => {
                client.disconnect();
                client.disconnect();
                delay = end;
            }
            "OtherCall" => *self.busy.lock().unwrap() = b,
            "SetProof" => client.set_membership_proof(b"proof".to_vec()),
            "SetMembers" => client.set_group_members(
                strings(&op["m"]).iter().map(|u| GroupMember { user_id: uid(u), member_id: format!("member {u}").into_bytes() }).collect(),
            ),
            "Muted" => match op["by"].as_u64().unwrap() {
                0 => client.set_outgoing_audio_muted(b),
                by => client.set_outgoing_audio_muted_remotely(by as u32),
            },
            "Video" => client.set_outgoing_video_muted(b),
            "Present" => client.set_presenting(b),
            "Share" => client.set_sharing_screen(b),
            "AskMute" => client.send_remote_mute_request(d),
            "React" => client.react(reaction(op)),
            "Raise" => client.raise_hand(b),
            "ReqVideo" => {
                let reqs = op["reqs"].as_array().unwrap().iter();
                let n = |v: &Value| v.as_u64().unwrap();
                let reqs = reqs.map(|r| VideoRequest {
                    demux_id: n(&r["d"]) as u32,
                    width: n(&r["w"]) as u16,
                    height: n(&r["h"]) as u16,
                    framerate: None,
                });
                client.request_video(reqs.collect(), n(&op["act"]) as u16)
            }
            "DataMode" => client.set_data_mode(match op["kbps"].as_u64().unwrap() {
                500 => DataMode::Low,
                20000 => DataMode::Normal,
                n => DataMode::Custom { max_bitrate: DataRate::from_kbps(n), max_group_call_receive_rate: DataRate::from_kbps(n) },
            }),
            "Override" => {
                let f = |n: &str| Some(DataRate::from_kbps(op["r"][n].as_u64().unwrap()));
                client.override_send_rates(SendRates { min: f("min"), start: f("start"), max: f("max") })
            }
            "ResendKeys" => client.resend_media_keys(),
            "Decide" if op["what"] == "approve" => client.approve_user(uid(&u)),
            "Decide" => client.deny_user(uid(&u)),
            "Remove" if op["what"] == "remove" => client.remove_client(d),
            "Remove" => client.block_client(d),
            "Ring" => client.ring(None),
            "JoinOk" => {
                if let Some(c) = self.world.joins.lock().unwrap().pop() {
                    let creator = op["creator"].as_str().filter(|c| *c != "none").map(uid);
                    c.on_sfu_client_join_attempt_completed(Ok(Joined {
                        sfu_info: SfuInfo {
                            udp_addresses: vec![],
                            tcp_addresses: vec![],
                            tls_addresses: vec![],
                            hostname: None,
                            ice_ufrag: "u".into(),
                            ice_pwd: "p".into(),
                        },
                        local_demux_id: LOCAL,
                        server_dhe_pub_key: if op["good"].as_bool().unwrap() { server_key() } else { [0; 32] },
                        hkdf_extra_info: b"x".to_vec(),
                        creator,
                        era_id: "E1".into(),
                        join_state: if op["st"] == "Joined" { JoinState::Joined(LOCAL) } else { JoinState::Pending(LOCAL) },
                    }))
                }
                delay = end;
            }
            "JoinFail" => {
                if let Some(c) = self.world.joins.lock().unwrap().pop() {
                    if op["full"].as_bool().unwrap() {
                        c.vp_join_full()
                    } else {
                        c.on_sfu_client_join_attempt_completed(Err(anyhow::anyhow!("no")))
                    }
                }
                delay = end;
            }
            "Ice" => {
                client.vp_ice(match op["i"].as_str().unwrap() {
                    "Checking" => IceConnectionState::Checking,
                    "Connected" => IceConnectionState::Connected,
                    "Completed" => IceConnectionState::Completed,
                    "Failed" => IceConnectionState::Failed,
                    "Disconnected" => IceConnectionState::Disconnected,
                    "Closed" => IceConnectionState::Closed,
                    _ => IceConnectionState::New,
                });
                delay = end;
            }
            "PeekOk" => {
                let callback = self.world.peeks.lock().unwrap().pop_front();
                callback.expect("a question to answer")(Ok(peek()));
            }
            "PeekFail" => {
                let callback = self.world.peeks.lock().unwrap().pop_front();
                callback.expect("a question to answer")(Err(500.into()));
            }
            "Pushed" => {
                let list = |v: &Value| {
                    devices(v)
                        .iter()
                        .map(|d| sfu_to_device::peek_info::PeekDeviceInfo {
                            demux_id: Some(d.demux_id),
                            opaque_user_id: Some(opaque(d.user_id.as_ref().map_or("stranger", |u| std::str::from_utf8(u).unwrap()))),
                        })
                        .collect()
                };
                let info = sfu_to_device::PeekInfo {
                    era_id: peek().era_id,
                    max_devices: Some(16),
                    creator: None,
                    devices: list(&op["p"]["devs"]),
                    pending_devices: list(&op["p"]["pend"]),
                    call_link_state: None,
                };
                let m = DeviceJoinedOrLeft { peek_info: Some(info) };
                self.server(SfuToDevice { device_joined_or_left: Some(m), ..Default::default() }, None)
            }
            "Hint" => {
                let m = DeviceJoinedOrLeft { peek_info: None };
                self.server(SfuToDevice { device_joined_or_left: Some(m), ..Default::default() }, None)
            }
            "Removed" => {
                self.server(SfuToDevice { removed: Some(Removed {}), ..Default::default() }, None);
                delay = end;
            }
            "Hands" => {
                let raised = |h: &Value| RaisedHands {
                    demux_ids: h["list"].as_array().unwrap().iter().map(|d| d.as_u64().unwrap() as u32).collect(),
                    seqnums: vec![],
                    target_seqnum: Some(h["seq"].as_u64().unwrap() as u32),
                };
                let q = op["q"].as_array().unwrap();
                let order = op["order"].as_array().unwrap();
                if order.is_empty() {
                    for h in q {
                        self.server(SfuToDevice { raised_hands: Some(raised(h)), ..Default::default() }, None);
                    }
                }
                // by the reliable stream, arriving in the given order
                for at in order {
                    let at = at.as_u64().unwrap() - 1;
                    let h = &q[at as usize];
                    let mut m = SfuToDevice { raised_hands: Some(raised(h)), ..Default::default() };
                    if h["wrap"].as_bool().unwrap() {
                        m = SfuToDevice { content: Some(m.encode_to_vec()), ..Default::default() };
                    }
                    m.mrp_header = Some(MrpHeader { seqnum: Some(self.reliable + 1 + at), ..Default::default() });
                    self.server(m, None);
                }
                self.reliable += order.len() as u64;
            }
            "Speaker" => {
                let m = Speaker { demux_id: Some(d) };
                self.server(SfuToDevice { speaker: Some(m), ..Default::default() }, Some(op["ts"].as_u64().unwrap() as u32))
            }
            "Key" => {
                let secret = secret_of(d as u64, op["k"].as_u64().unwrap()).to_vec();
                let shape = op["shape"].as_str().unwrap();
                let key = MediaKey {
                    demux_id: Some(d).filter(|_| shape != "nobody"),
                    ratchet_counter: Some(if shape == "counter" { 256 } else { 0 }),
                    secret: Some(if shape == "short" { secret[1..].to_vec() } else { secret }),
                };
                client.on_signaling_message_received(uid(&u), DeviceToDevice { media_key: Some(key), ..Default::default() })
            }
            "LeaveSig" => client.on_signaling_message_received(
                uid(&u),
                DeviceToDevice {
                    group_id: Some(op["g"].as_str().unwrap().into()),
                    leaving: Some(Leaving { demux_id: Some(d) }),
                    ..Default::default()
                },
            ),
            "Beat" => {
                let h = &op["hb"];
                let flag = |n: &str| match h[n].as_str().unwrap() {
                    "n" => None,
                    v => Some(v == "t"),
                };
                let beat = Heartbeat {
                    audio_muted: flag("am"),
                    video_muted: flag("vm"),
                    presenting: flag("pr"),
                    sharing_screen: flag("ss"),
                    muted_by_demux_id: Some(h["mb"].as_u64().unwrap() as u32).filter(|b| *b != 0),
                };
                self.participant(op, op["ts"].as_u64().unwrap() as u32, DeviceToDevice { heartbeat: Some(beat), ..Default::default() })
            }
            "LeaveRtp" => self.participant(op, 1, DeviceToDevice { leaving: Some(Leaving { demux_id: None }), ..Default::default() }),
            "ReactIn" => {
                let r = ReactionProto { value: Some(reaction(op)) };
                self.participant(op, 1, DeviceToDevice { reaction: Some(r), ..Default::default() })
            }
            "MuteIn" => {
                let r = RemoteMuteRequest { target_demux_id: Some(op["target"].as_u64().unwrap() as u32) };
                self.participant(op, 1, DeviceToDevice { remote_mute_request: Some(r), ..Default::default() })
            }
            "Frame" => {
                let frame = client.vp_encrypt(b"a frame of mine").unwrap();
                res = match self.locate(&frame) {
                    Some((lin, rc, body)) if body == b"a frame of mine" => json!([lin, rc]),
                    _ => json!("with an unknown key"),
                };
            }
            "FrameIn" => {
                let (d, k) = (d as u64, op["k"].as_u64().unwrap());
                let c = self.theirs.entry((d, k)).or_insert_with(|| Context::new(secret_of(d, k)));
                let frame = seal(c, b"a frame of theirs");
                res = json!(client.vp_decrypt(d as u32, &frame).as_deref() == Some(b"a frame of theirs"));
            }
            "Wait" => std::thread::sleep(Duration::from_millis(2800)),
            x => panic!("{x}"),
        }
        (res, delay)
    }
}

fn server_key() -> [u8; 32] {
    *x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from([9; 32])).as_bytes()
}
fn reaction(op: &Value) -> String {
    match op["v"].as_str().unwrap() {
        "long" => "x".repeat(1000),
        v => v.to_string(),
    }
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}
fn devices(v: &Value) -> Vec<PeekDeviceInfo> {
    let ids = v.as_array().unwrap().iter().map(|d| d.as_u64().unwrap());
    ids.map(|d| PeekDeviceInfo { demux_id: d as u32, user_id: owner(d).map(uid) }).collect()
}

/// None: the machine was too slow for the times of the episode to mean anything
fn episode(script: &[Value]) -> Option<Vec<Value>> {
    let kind = script[0]["kind"].as_str().unwrap().to_string();
    let mut out = vec![];
    let mut spent = Duration::ZERO;
    let all = catch(|| {
        let mut run = Run::new(&kind);
        for op in script {
            let mut e = op.clone();
            let wait = op["op"] == "Wait";
            let from = Instant::now();
            let (res, delay) = if op["op"] == "Reset" { (json!("ok"), Duration::ZERO) } else { run.apply(op) };
            run.settle(delay);
            let took = from.elapsed();
            spent += if wait { took - Duration::from_millis(2800) } else { took };
            e["ev"] = op["op"].clone();
            e["obs"] = json!({"o": run.collect(), "busy": *run.busy.lock().unwrap(), "res": res});
            out.push(e);
        }
        run.client.vp_stop();
    });
    if let Err(p) = all {
        out.push(json!({"ev": "Panic", "obs": {"panic": p}}));
        return Some(out);
    }
    if spent > Duration::from_millis(1300) { None } else { Some(out) }
}

pub fn main(args: &Args) {
    let out = Mutex::new(args.out());
    let jobs = Mutex::new(args.scripts().into_iter());
    let skipped = Mutex::new(0);
    std::thread::scope(|s| {
        for _ in 0..args.num("threads", 128) {
            s.spawn(|| {
                loop {
                    let j = jobs.lock().unwrap().next();
                    let Some(script) = j else { break };
                    match episode(&script) {
                        Some(l) => {
                            let mut o = out.lock().unwrap();
                            for e in l {
                                o.ev(e);
                            }
                        }
                        None => *skipped.lock().unwrap() += 1,
                    }
                }
            });
        }
    });
    println!("{{\"skipped\":{}}}", skipped.lock().unwrap());
}
