//! Drives core::call_manager::CallManager (1:1 calls) through a platform that only records what it
//! is asked to do: the application's answers (message sent, proceed, ...) are steps of the script.
use ringrtc::{
    common::{
        ApplicationEvent, CallConfig, CallDirection, CallEndReason, CallId, CallMediaType, DataMode,
        DeviceId, Result,
    },
    core::{
        call::Call,
        call_manager::CallManager,
        call_summary::CallSummary,
        connection::{Connection, ConnectionType},
        group_call,
        platform::Platform,
        signaling,
    },
    lite::{
        http,
        sfu::{self, DemuxId, PeekInfo, PeekResult, UserId},
    },
    protobuf,
    webrtc::{
        self,
        media::{MediaStream, VideoTrack},
        peer_connection::{AudioLevel, PeerConnection, ReceivedAudioLevel},
        peer_connection_observer::{NetworkAdapterType, NetworkRoute, TransportProtocol},
        sim::peer_connection::RffiPeerConnection,
    },
};
use std::{
    collections::{HashMap, HashSet},
    fmt,
    sync::{Arc, Mutex, mpsc},
    time::{Duration, Instant},
};
use vpcommon::*;

#[derive(Default)]
pub struct Log {
    pub items: Vec<Value>,
    /// offers and answers as sent
    pub wire: Vec<(u64, &'static str, Vec<u8>)>,
    /// callbacks that are to fail once
    faults: HashSet<String>,
    pub pcs: HashMap<(u64, DeviceId), RffiPeerConnection>,
    /// connections that have not been given their remote stream
    fresh: Vec<(u64, DeviceId)>,
    /// calls the application was told of but not of their conclusion
    open: HashSet<u64>,
    /// calls and offers so far, and conclusions
    asked: usize,
    concluded: usize,
}

#[derive(Clone, Default)]
pub struct VpPlatform {
    pub log: Arc<Mutex<Log>>,
}
impl VpPlatform {
    fn put(&self, v: Value) {
        self.log.lock().unwrap().items.push(v);
    }
    fn fault(&self, what: &str) -> Result<()> {
        if self.log.lock().unwrap().faults.remove(what) {
            Err(anyhow::anyhow!("the application failed in {what}"))
        } else {
            Ok(())
        }
    }
}
impl fmt::Display for VpPlatform {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "VpPlatform")
    }
}
impl fmt::Debug for VpPlatform {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "VpPlatform")
    }
}
impl sfu::Delegate for VpPlatform {
    fn handle_peek_result(&self, request_id: u32, _peek_result: PeekResult) {
        self.put(json!({"k": "peekresult", "id": request_id}));
    }
}

fn hangup_json(h: signaling::Hangup) -> (String, DeviceId) {
    let (t, d) = h.to_type_and_device_id();
    (hangup_name(t as i32).to_string(), d.unwrap_or(0))
}
fn hangup_name(t: i32) -> &'static str {
    match t {
        0 => "normal",
        1 => "accepted",
        2 => "declined",
        3 => "busy",
        4 => "permission",
        _ => "unknown",
    }
}
fn hangup_of(v: &Value) -> signaling::Hangup {
    let d = v["hd"].as_u64().unwrap_or(0) as DeviceId;
    match v["h"].as_str().unwrap() {
        "normal" => signaling::Hangup::Normal,
        "accepted" => signaling::Hangup::AcceptedOnAnotherDevice(d),
        "declined" => signaling::Hangup::DeclinedOnAnotherDevice(d),
        "busy" => signaling::Hangup::BusyOnAnotherDevice(d),
        _ => signaling::Hangup::NeedPermission(if d == 0 { None } else { Some(d) }),
    }
}
fn cand_of(name: &str) -> signaling::IceCandidate {
    if let Some(port) = name.strip_prefix('-') {
        let addr = format!("10.0.0.1:{port}").parse().unwrap();
        signaling::IceCandidate::from_removed_address(addr).unwrap()
    } else {
        signaling::IceCandidate::from_v3_sdp(format!("candidate:{name}")).unwrap()
    }
}
fn cand_name(c: &signaling::IceCandidate) -> String {
    if let Some(a) = c.removed_address() {
        return format!("-{}", a.port());
    }
    match c.v3_sdp() {
        Some(s) => s.strip_prefix("candidate:").unwrap_or("?").to_string(),
        None => "??".into(),
    }
}
fn tri(b: Option<bool>) -> &'static str {
    match b {
        None => "",
        Some(true) => "on",
        Some(false) => "off",
    }
}
fn un_tri(v: &Value) -> Option<bool> {
    match v.as_str().unwrap_or("") {
        "on" => Some(true),
        "off" => Some(false),
        _ => None,
    }
}

impl Platform for VpPlatform {
    type AppIncomingMedia = String;
    type AppRemotePeer = String;
    type AppConnection = RffiPeerConnection;
    type AppCallContext = String;

    fn create_connection(
        &mut self,
        call: &Call<Self>,
        remote_device_id: DeviceId,
        connection_type: ConnectionType,
        _signaling_version: signaling::Version,
        call_config: CallConfig,
        audio_levels_interval: Option<Duration>,
    ) -> Result<Connection<Self>> {
        self.fault("create")?;
        let fake_pc = RffiPeerConnection::new();
        let connection = Connection::new(
            call.clone(),
            remote_device_id,
            connection_type,
            call_config,
            audio_levels_interval,
            None,
        )?;
        connection.set_app_connection(fake_pc)?;
        // the Connection's own copy is the one its media functions act upon
        let pc = connection.app_connection()?;
        let me = self.clone();
        let call_id = call.call_id().as_u64();
        let last = Mutex::new(0u64);
        pc.set_rtp_packet_sink(Box::new(move |_header, data| {
            use prost::Message;
            let Ok(m) = protobuf::rtp_data::Message::decode(data) else {
                me.put(json!({"k": "rtp", "c": call_id, "d": remote_device_id, "bad": true}));
                return;
            };
            let seq = m.seqnum.unwrap_or(0);
            let mut last = last.lock().unwrap();
            if seq == *last {
                return; // the periodic repetition
            }
            let newer = seq == *last + 1;
            *last = seq;
            let mut msg = json!({"acc": m.accepted.is_some(), "h": "", "hd": 0, "v": "", "s": "", "a": "", "rate": 0});
            let mut ids = vec![];
            if let Some(a) = &m.accepted {
                ids.push(a.id());
            }
            if let Some(h) = &m.hangup {
                ids.push(h.id());
                msg["h"] = json!(hangup_name(h.r#type() as i32));
                msg["hd"] = json!(h.device_id());
            }
            if let Some(s) = &m.sender_status {
                ids.push(s.id());
                msg["v"] = json!(tri(s.video_enabled));
                msg["s"] = json!(tri(s.sharing_screen));
                msg["a"] = json!(tri(s.audio_enabled));
            }
            if let Some(r) = &m.receiver_status {
                ids.push(r.id());
                msg["rate"] = json!(r.max_bitrate_bps() / 1000);
            }
            let own = newer && ids.iter().all(|i| *i == call_id);
            me.put(json!({"k": "rtp", "c": call_id, "d": remote_device_id, "m": msg, "own": own}));
        }));
        {
            let mut log = self.log.lock().unwrap();
            if connection_type != ConnectionType::OutgoingChild {
                // the first connection of a call: none of an earlier call with that id counts
                log.pcs.retain(|(c, _), _| *c != call_id);
            }
            log.pcs.insert((call_id, remote_device_id), pc);
            log.fresh.retain(|k| *k != (call_id, remote_device_id));
            if remote_device_id != 0 {
                log.fresh.push((call_id, remote_device_id));
            }
        }
        let peer_connection = PeerConnection::new(
            unsafe {
                // never freed: a connection may use it until its threads are gone
                let leaked: &'static RffiPeerConnection = Box::leak(Box::new(connection.app_connection()?));
                webrtc::Arc::from_borrowed(webrtc::ptr::BorrowedRc::from_ptr(leaked as *const _))
            },
            None,
            None,
        );
        connection.set_peer_connection(peer_connection)?;
        Ok(connection)
    }

    fn on_start_call(&self, r: &String, c: CallId, direction: CallDirection, media: CallMediaType) -> Result<()> {
        self.log.lock().unwrap().open.insert(c.as_u64());
        let a = match direction {
            CallDirection::Outgoing => "out",
            CallDirection::Incoming => "in",
        };
        let v = if media == CallMediaType::Video { "video" } else { "audio" };
        self.put(json!({"k": "life", "c": c.as_u64(), "e": "start", "a": a, "r": r, "v": v}));
        self.fault("start")
    }
    fn on_event(&self, r: &String, c: CallId, event: ApplicationEvent) -> Result<()> {
        self.log.lock().unwrap().open.insert(c.as_u64());
        self.put(json!({"k": "life", "c": c.as_u64(), "e": "event", "a": format!("{event:?}"), "r": r}));
        self.fault("event")
    }
    fn on_network_route_changed(&self, r: &String, route: NetworkRoute) -> Result<()> {
        self.put(json!({"k": "route", "r": r, "a": route.local_relayed || route.remote_relayed}));
        Ok(())
    }
    fn on_audio_levels(&self, _: &String, _: AudioLevel, _: AudioLevel) -> Result<()> {
        Ok(())
    }
    fn on_low_bandwidth_for_video(&self, _: &String, _: bool) -> Result<()> {
        Ok(())
    }
    fn on_send_offer(&self, r: &String, c: CallId, o: signaling::Offer) -> Result<()> {
        let v = if o.call_media_type == CallMediaType::Video { "video" } else { "audio" };
        self.log.lock().unwrap().wire.push((c.as_u64(), "offer", o.opaque.clone()));
        self.put(json!({"k": "send", "c": c.as_u64(), "r": r, "t": "offer", "to": 0, "h": v, "hd": 0, "cands": []}));
        self.fault("offer")
    }
    fn on_send_answer(&self, r: &String, c: CallId, s: signaling::SendAnswer) -> Result<()> {
        self.log.lock().unwrap().wire.push((c.as_u64(), "answer", s.answer.opaque.clone()));
        self.put(json!({"k": "send", "c": c.as_u64(), "r": r, "t": "answer", "to": s.receiver_device_id, "h": "", "hd": 0, "cands": []}));
        self.fault("answer")
    }
    fn on_send_ice(&self, r: &String, c: CallId, s: signaling::SendIce) -> Result<()> {
        let cands: Vec<_> = s.ice.candidates.iter().map(cand_name).collect();
        self.put(json!({"k": "send", "c": c.as_u64(), "r": r, "t": "ice", "to": s.receiver_device_id.unwrap_or(0), "h": "", "hd": 0, "cands": cands}));
        self.fault("ice")
    }
    fn on_send_hangup(&self, r: &String, c: CallId, s: signaling::SendHangup) -> Result<()> {
        let (h, hd) = hangup_json(s.hangup);
        self.put(json!({"k": "send", "c": c.as_u64(), "r": r, "t": "hangup", "to": 0, "h": h, "hd": hd, "cands": []}));
        self.fault("hangup")
    }
    fn on_send_busy(&self, r: &String, c: CallId) -> Result<()> {
        self.put(json!({"k": "send", "c": c.as_u64(), "r": r, "t": "busy", "to": 0, "h": "", "hd": 0, "cands": []}));
        self.fault("busy")
    }
    fn send_call_message(&self, recipient: Vec<u8>, message: Vec<u8>, urgency: group_call::SignalingMessageUrgency) -> Result<()> {
        self.put(crate::rings::sent_json(&recipient, &message, urgency));
        Ok(())
    }
    fn send_call_message_to_group(&self, _: Vec<u8>, _: Vec<u8>, _: group_call::SignalingMessageUrgency, _: HashSet<UserId>) -> Result<()> {
        Ok(())
    }
    fn send_call_message_to_adhoc_group(&self, _: Vec<u8>, _: group_call::SignalingMessageUrgency, _: u64, _: HashMap<UserId, Vec<u8>>) -> Result<()> {
        Ok(())
    }
    fn create_incoming_media(&self, _: &Connection<Self>, _: MediaStream) -> Result<String> {
        self.fault("media")?;
        Ok("media".into())
    }
    fn connect_incoming_media(&self, r: &String, context: &String, _: &String) -> Result<()> {
        self.put(json!({"k": "media", "e": "connect", "r": r, "x": context}));
        self.fault("connect")
    }
    fn disconnect_incoming_media(&self, context: &String) -> Result<()> {
        self.put(json!({"k": "media", "e": "disconnect", "x": context}));
        Ok(())
    }
    fn compare_remotes(&self, a: &String, b: &String) -> Result<bool> {
        Ok(a == b)
    }
    fn on_offer_expired(&self, r: &String, c: CallId, _age: Duration) -> Result<()> {
        self.log.lock().unwrap().open.insert(c.as_u64());
        self.put(json!({"k": "life", "c": c.as_u64(), "e": "expired", "a": "", "r": r}));
        Ok(())
    }
    fn on_call_ended(&self, r: &String, c: CallId, reason: CallEndReason, _: CallSummary) -> Result<()> {
        self.put(json!({"k": "life", "c": c.as_u64(), "e": "ended", "a": format!("{reason:?}"), "r": r}));
        Ok(())
    }
    fn on_call_concluded(&self, r: &String, c: CallId) -> Result<()> {
        self.log.lock().unwrap().open.remove(&c.as_u64());
        self.log.lock().unwrap().concluded += 1;
        self.put(json!({"k": "life", "c": c.as_u64(), "e": "concluded", "a": "", "r": r}));
        Ok(())
    }
    fn group_call_ring_update(&self, group: group_call::GroupId, ring: group_call::RingId, sender: UserId, update: group_call::RingUpdate) {
        self.put(crate::rings::update_json(&group, ring, &sender, update));
    }
    fn request_membership_proof(&self, _: group_call::ClientId) {}
    fn request_group_members(&self, _: group_call::ClientId) {}
    fn handle_connection_state_changed(&self, _: group_call::ClientId, _: group_call::ConnectionState) {}
    fn handle_network_route_changed(&self, _: group_call::ClientId, _: NetworkRoute) {}
    fn handle_join_state_changed(&self, _: group_call::ClientId, _: group_call::JoinState) {}
    fn handle_remote_devices_changed(&self, _: group_call::ClientId, _: &[group_call::RemoteDeviceState], _: group_call::RemoteDevicesChangedReason) {}
    fn handle_incoming_video_track(&self, _: group_call::ClientId, _: DemuxId, _: VideoTrack) {}
    fn handle_peek_changed(&self, _: group_call::ClientId, _: &PeekInfo, _: &HashSet<UserId>) {}
    fn handle_speaking_notification(&self, _: group_call::ClientId, _: group_call::SpeechEvent) {}
    fn handle_audio_levels(&self, _: group_call::ClientId, _: AudioLevel, _: Vec<ReceivedAudioLevel>) {}
    fn handle_reactions(&self, _: group_call::ClientId, _: Vec<group_call::Reaction>) {}
    fn handle_raised_hands(&self, _: group_call::ClientId, _: Vec<DemuxId>) {}
    fn handle_ended(&self, _: group_call::ClientId, _: CallEndReason, _: CallSummary) {}
    fn handle_remote_mute_request(&self, _: group_call::ClientId, _: DemuxId) {}
    fn handle_observed_remote_mute(&self, _: group_call::ClientId, _: DemuxId, _: DemuxId) {}
}

pub struct NoHttp;
impl http::Delegate for NoHttp {
    fn send_request(&self, _request_id: u32, _request: http::Request) {}
}

fn key_bytes(n: u64) -> Vec<u8> {
    let mut r = Rng::new(n * 7919 + 13);
    let mut v: Vec<u8> = (0..32).map(|_| r.below(256) as u8).collect();
    v[31] &= 0x7f;
    v
}
fn params(n: u64) -> protobuf::signaling::ConnectionParametersV4 {
    protobuf::signaling::ConnectionParametersV4 {
        public_key: Some(key_bytes(n)),
        ice_ufrag: Some("ufrag".into()),
        ice_pwd: Some("pwd".into()),
        receive_video_codecs: vec![],
        decode_only_video_codecs: vec![],
        encode_only_video_codecs: vec![],
        max_bitrate_bps: None,
    }
}

pub struct World {
    pub platform: VpPlatform,
    pub cm: CallManager<VpPlatform>,
    keys: u64,
    /// CallManager::synchronize may wait forever for a call that ends meanwhile: it runs on a
    /// thread of its own, and a world whose thread is stuck is thrown away.
    sync: (mpsc::Sender<()>, mpsc::Receiver<()>),
    stuck: bool,
    batched: bool,
}

impl World {
    pub fn new(seed: u64, batched: bool) -> Self {
        let platform = VpPlatform::default();
        let cm = CallManager::new(platform.clone(), http::DelegatingClient::new(NoHttp)).unwrap();
        let (ask, asked) = mpsc::channel::<()>();
        let (tell, told) = mpsc::channel::<()>();
        let mut theirs = cm.clone();
        std::thread::spawn(move || {
            while asked.recv().is_ok() {
                let _ = theirs.synchronize();
                if tell.send(()).is_err() {
                    break;
                }
            }
        });
        World { platform, cm, keys: seed * 1000, sync: (ask, told), stuck: false, batched }
    }

    fn conn(&self, d: u64) -> Option<Connection<VpPlatform>> {
        let call = self.cm.active_call().ok()?;
        match d {
            // test infrastructure that minds a call not having come that far
            0 if self.batched => None,
            0 => call.get_parent_connection().ok(),
            d => call.get_connection(d as DeviceId).ok(),
        }
    }

    pub fn apply(&mut self, op: &Value) {
        let r = || op["r"].as_str().unwrap().to_string();
        let d = op["d"].as_u64().unwrap_or(0);
        let dev = d as DeviceId;
        let c = CallId::new(op["c"].as_u64().unwrap_or(0));
        self.keys += 1;
        let keys = self.keys;
        if matches!(op["op"].as_str(), Some("call" | "offer")) {
            self.platform.log.lock().unwrap().asked += 1;
        }
        match op["op"].as_str().unwrap() {
            "call" => {
                let media = if op["v"] == "video" { CallMediaType::Video } else { CallMediaType::Audio };
                self.cm.create_outgoing_call(r(), c, media, 1).unwrap()
            }
            "proceed" => {
                let mode = if op["m"] == "low" { DataMode::Low } else { DataMode::Normal };
                self.cm
                    .proceed(c, format!("ctx{}", c.as_u64()), CallConfig::default().with_data_mode(mode), None)
                    .unwrap()
            }
            "accept" => self.cm.accept_call(c).unwrap(),
            "drop" => self.cm.drop_call(c).unwrap(),
            "hangup" => self.cm.hangup().unwrap(),
            "sent" => self.cm.message_sent(c).unwrap(),
            "failed" => self.cm.message_send_failure(c).unwrap(),
            "reset" => self.cm.reset().unwrap(),
            "offer" => {
                let media = if op["v"] == "video" { CallMediaType::Video } else { CallMediaType::Audio };
                let offer = match op["p"].as_str() {
                    Some("bad") => signaling::Offer::new(media, vec![]),
                    _ => signaling::Offer::from_v4(media, params(keys)),
                };
                let Ok(offer) = offer else { return };
                let received = signaling::ReceivedOffer {
                    offer,
                    age: Duration::from_secs(op["age"].as_u64().unwrap_or(0)),
                    sender_device_id: dev,
                    receiver_device_id: 1,
                    sender_identity_key: vec![5; 33],
                    receiver_identity_key: vec![6; 33],
                };
                self.cm.received_offer(r(), c, received).unwrap()
            }
            "answer" => {
                let received = signaling::ReceivedAnswer {
                    answer: signaling::Answer::from_v4(params(keys)).unwrap(),
                    sender_device_id: dev,
                    sender_identity_key: vec![5; 33],
                    receiver_identity_key: vec![6; 33],
                };
                self.cm.received_answer(r(), c, received).unwrap()
            }
            "ice" => {
                let received = signaling::ReceivedIce {
                    ice: signaling::Ice {
                        candidates: op["cands"].as_array().unwrap().iter().map(|x| cand_of(x.as_str().unwrap())).collect(),
                    },
                    sender_device_id: dev,
                };
                self.cm.received_ice(r(), c, received).unwrap()
            }
            "burst" => {
                for i in 1..=op["k"].as_u64().unwrap() {
                    let ice = signaling::Ice { candidates: vec![cand_of(&format!("b{i}"))] };
                    let received = signaling::ReceivedIce { ice, sender_device_id: dev };
                    self.cm.received_ice(r(), c, received).unwrap();
                }
            }
            "rhangup" => {
                let received = signaling::ReceivedHangup { hangup: hangup_of(op), sender_device_id: dev };
                self.cm.received_hangup(r(), c, received).unwrap()
            }
            "rbusy" => self.cm.received_busy(r(), c, signaling::ReceivedBusy { sender_device_id: dev }).unwrap(),
            "timeout" => {
                if let Ok(mut call) = self.cm.active_call() {
                    call.inject_call_timeout().unwrap();
                }
            }
            "fault" => {
                self.platform.log.lock().unwrap().faults.insert(op["f"].as_str().unwrap().to_string());
            }
            other => {
                let Some(mut conn) = self.conn(d) else { return };
                match other {
                    "local" => {
                        let cand = cand_of(op["cand"].as_str().unwrap());
                        let force = op["force"].as_bool().unwrap_or(false);
                        match cand.removed_address() {
                            Some(a) => conn.inject_local_ice_candidate_removed(a, force).unwrap(),
                            None => conn.inject_local_ice_candidate(cand, force, "", None).unwrap(),
                        }
                    }
                    "up" => conn.inject_ice_connected().unwrap(),
                    "down" => conn.inject_ice_disconnected().unwrap(),
                    "icefail" => conn.inject_ice_failed().unwrap(),
                    "relay" => {
                        let route = NetworkRoute {
                            local_adapter_type: NetworkAdapterType::Wifi,
                            local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
                            local_relayed: op["on"].as_bool().unwrap(),
                            local_relay_protocol: TransportProtocol::Udp,
                            remote_relayed: op["remote"].as_bool().unwrap_or(false),
                        };
                        conn.inject_ice_network_route_changed(route).unwrap()
                    }
                    "status" => conn
                        .update_sender_status(signaling::SenderStatus {
                            video_enabled: un_tri(&op["v"]),
                            sharing_screen: un_tri(&op["s"]),
                            audio_enabled: un_tri(&op["a"]),
                        })
                        .unwrap(),
                    "mode" => conn
                        .inject_update_data_mode(if op["m"] == "low" { DataMode::Low } else { DataMode::Normal })
                        .unwrap(),
                    "rtp" => {
                        use prost::Message;
                        let m = &op["m"];
                        let id = Some(m["id"].as_u64().unwrap());
                        let mut msg = protobuf::rtp_data::Message::default();
                        if m["acc"] == true {
                            msg.accepted = Some(protobuf::rtp_data::Accepted { id });
                        }
                        if m["h"] != "" {
                            let t = ["normal", "accepted", "declined", "busy", "permission"]
                                .iter()
                                .position(|x| m["h"] == *x)
                                .unwrap() as i32;
                            msg.hangup = Some(protobuf::rtp_data::Hangup {
                                id,
                                r#type: Some(t),
                                device_id: Some(m["hd"].as_u64().unwrap_or(0) as u32),
                            });
                        }
                        if m["ss"] == true {
                            msg.sender_status = Some(protobuf::rtp_data::SenderStatus {
                                id,
                                video_enabled: un_tri(&m["v"]),
                                sharing_screen: un_tri(&m["s"]),
                                audio_enabled: un_tri(&m["a"]),
                            });
                        }
                        if m["rate"] != 0 {
                            msg.receiver_status = Some(protobuf::rtp_data::ReceiverStatus {
                                id,
                                max_bitrate_bps: Some(m["rate"].as_u64().unwrap() * 1000),
                            });
                        }
                        if m["seq"] != 0 {
                            msg.seqnum = Some(m["seq"].as_u64().unwrap());
                        }
                        conn.inject_received_via_rtp_data(&msg.encode_to_vec());
                    }
                    "junk" => conn.inject_received_via_rtp_data(op["bytes"].as_str().unwrap().as_bytes()),
                    o => panic!("unknown op {o}"),
                }
            }
        }
    }

    /// WebRTC delivers the remote stream once a connection has its remote description.
    fn streams(&mut self) -> bool {
        let mut any = false;
        let fresh = std::mem::take(&mut self.platform.log.lock().unwrap().fresh);
        if let Ok(call) = self.cm.active_call() {
            for (c, d) in fresh {
                if c == call.call_id().as_u64()
                    && let Ok(mut conn) = call.get_connection(d)
                {
                    let _ = conn.inject_received_incoming_media(MediaStream::new(webrtc::Arc::null()));
                    any = true;
                }
            }
        }
        any
    }

    fn synchronize(&mut self) {
        if !self.stuck {
            let _ = self.sync.0.send(());
            self.stuck = self.sync.1.recv_timeout(Duration::from_secs(4)).is_err();
        }
    }

    pub fn settle(&mut self) {
        self.synchronize();
        if self.streams() {
            self.synchronize();
        }
        // calls conclude when their last user lets go of them, a moment after everything else
        let until = Instant::now() + Duration::from_millis(4);
        loop {
            let items = self.platform.log.lock().unwrap().items.len();
            let active = self.cm.active_call().ok().map(|c| c.call_id().as_u64());
            let waiting = {
                let log = self.platform.log.lock().unwrap();
                log.open.iter().any(|c| Some(*c) != active)
            };
            self.synchronize();
            let again = self.platform.log.lock().unwrap().items.len() != items;
            if self.stuck || !again && (!waiting || Instant::now() > until) {
                break;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }

    /// The application reports everything it was given to send as sent.
    fn confirm(&mut self) {
        let mut seen = 0;
        for _ in 0..200 {
            let sent = |x: &&Value| x["k"] == "send";
            let (n, c) = {
                let log = self.platform.log.lock().unwrap();
                let n = log.items.iter().filter(sent).count();
                (n, log.items.iter().filter(sent).last().map_or(0, |x| x["c"].as_u64().unwrap()))
            };
            if n == seen {
                break;
            }
            seen = n;
            let _ = self.cm.message_sent(CallId::new(c));
            self.settle();
        }
    }

    pub fn observe(&mut self) -> Value {
        let active = self.cm.active_call().ok().map(|c| c.call_id().as_u64());
        let there: HashSet<DeviceId> = match self.cm.active_call() {
            Ok(c) => (1..=4).filter(|d| c.get_connection(*d).is_ok()).collect(),
            Err(_) => HashSet::new(),
        };
        let mut log = self.platform.log.lock().unwrap();
        let items = std::mem::take(&mut log.items);
        let pick = |k: &str| -> Vec<Value> { items.iter().filter(|x| x["k"] == k).cloned().collect() };
        let mut life = pick("life");
        life.retain(|x| x["e"] != "concluded");
        life.sort_by_key(|x| x["c"].as_u64());
        for x in life.iter_mut() {
            if x["e"] != "start" {
                x["v"] = json!("");
            }
        }
        let about_status = |x: &Value| {
            let a = x["a"].as_str().unwrap();
            ["RemoteVideo", "RemoteAudio", "RemoteSharingScreen"].iter().any(|p| a.starts_with(p))
        };
        let (stat, life): (Vec<Value>, Vec<Value>) = life.into_iter().partition(about_status);
        let stat: Vec<Value> = stat.iter().map(|x| json!({"c": x["c"], "a": x["a"]})).collect();
        let strip = |v: Vec<Value>| -> Vec<Value> {
            v.into_iter()
                .map(|mut x| {
                    x.as_object_mut().unwrap().remove("k");
                    x
                })
                .collect()
        };
        let media: Vec<Value> = pick("media")
            .iter()
            .map(|x| json!({"e": x["e"], "c": x["x"].as_str().unwrap()[3..].parse::<u64>().unwrap()}))
            .collect();
        let mut rtp = pick("rtp");
        rtp.sort_by_key(|x| (x["c"].as_u64(), x["d"].as_u64()));
        // the whole record in its order, for what must not follow a conclusion
        let order: Vec<Value> = items
            .iter()
            .filter(|x| x["k"] == "life" || x["k"] == "send")
            .map(|x| {
                if x["k"] == "send" {
                    json!({"c": x["c"], "e": "send", "a": x["t"]})
                } else {
                    json!({"c": x["c"], "e": x["e"], "a": x["a"]})
                }
            })
            .collect();
        let mut talking: Vec<u64> = match active {
            Some(a) => log
                .pcs
                .iter()
                .filter(|((c, d), pc)| *c == a && there.contains(d) && pc.outgoing_audio_enabled())
                .map(|((_, d), _)| *d as u64)
                .collect(),
            None => vec![],
        };
        talking.sort();
        let mut rates: Vec<Value> = match active {
            Some(a) => log
                .pcs
                .iter()
                .filter(|((c, d), _)| *c == a && *d != 0 && there.contains(d))
                .map(|((_, d), pc)| json!({"d": d, "rate": pc.max_bitrate_bps().unwrap_or(0) / 1000}))
                .collect(),
            None => vec![],
        };
        rates.sort_by_key(|x| x["d"].as_u64());
        // what each connection's media stack was told of remote candidates
        let mut ice: Vec<Value> = log
            .pcs
            .iter()
            .map(|((c, d), pc)| {
                let l: Vec<String> =
                    pc.vp_take_ice().iter().map(|s| s.strip_prefix("candidate:").unwrap_or(s).to_string()).collect();
                json!({"c": c, "d": d, "l": l})
            })
            .filter(|x| x["l"] != json!([]))
            .collect();
        ice.sort_by_key(|x| (x["c"].as_u64(), x["d"].as_u64()));
        drop(log);
        json!({
            "life": strip(life), "send": strip(pick("send")), "rtp": strip(rtp), "order": order,
            "media": media, "stat": stat, "ice": ice, "route": strip(pick("route")),
            "busy": self.cm.busy(), "active": active.unwrap_or(0), "talking": talking, "rates": rates,
            "rings": strip(pick("ring")), "msgs": strip(pick("msg")),
        })
    }

    /// Ends the world: everything is given up, and every message confirmed.
    fn end(&mut self) -> Value {
        self.cm.reset().unwrap();
        self.settle();
        let until = Instant::now() + Duration::from_secs(2);
        let waiting = || {
            let log = self.platform.log.lock().unwrap();
            log.concluded < log.asked || !log.open.is_empty()
        };
        while waiting() && Instant::now() < until {
            std::thread::sleep(Duration::from_millis(1));
        }
        self.observe()
    }
}

fn thread_count() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

/// Whether the episode could be observed to its end.
fn episode(out: &Mutex<Vec<Value>>, script: &[Value], seed: u64, batched: bool, count: bool) -> bool {
    let mut w = World::new(seed, batched);
    w.settle();
    let baseline = thread_count();
    out.lock().unwrap().push(json!({"ev": "Reset", "batched": batched}));
    let mut part = vec![];
    for op in script {
        let p = catch(|| w.apply(op));
        if let Err(p) = p {
            out.lock().unwrap().push(json!({"ev": "Panic", "op": op, "what": p}));
            return true;
        }
        if batched {
            part.push(op.clone());
            continue;
        }
        w.settle();
        let obs = w.observe();
        let mut e = op.clone();
        e["ev"] = json!("Step");
        e["obs"] = obs;
        out.lock().unwrap().push(e);
    }
    if batched {
        w.settle();
        w.confirm();
        let obs = w.observe();
        out.lock().unwrap().push(json!({"ev": "Batch", "ops": part, "obs": obs}));
    }
    let mut obs = w.end();
    if count {
        // what ran for the calls has a moment to stop
        let until = Instant::now() + Duration::from_secs(2);
        while thread_count() > baseline && Instant::now() < until {
            std::thread::sleep(Duration::from_millis(1));
        }
        obs["threads"] = json!(thread_count() as i64 - baseline as i64);
    }
    out.lock().unwrap().push(json!({"ev": "End", "obs": obs}));
    if w.stuck {
        return false;
    }
    drop(std::mem::replace(&mut w.sync, (mpsc::channel().0, mpsc::channel().1)));
    let _ = w.cm.close();
    true
}

/// An episode on a thread of its own: a manager that stops answering keeps nobody waiting.
fn watched(script: &[Value], seed: u64, batched: bool, count: bool) -> (bool, Vec<Value>) {
    let out = Arc::new(Mutex::new(vec![]));
    let (tx, rx) = mpsc::channel();
    let (o, s) = (out.clone(), script.to_vec());
    std::thread::spawn(move || {
        let _ = tx.send(episode(&o, &s, seed, batched, count));
    });
    let mut n = 0;
    loop {
        match rx.recv_timeout(Duration::from_secs(15)) {
            Ok(done) => return (done, std::mem::take(&mut *out.lock().unwrap())),
            Err(_) => {
                let now = out.lock().unwrap().len();
                if now == n {
                    return (false, std::mem::take(&mut *out.lock().unwrap()));
                }
                n = now;
            }
        }
    }
}

/// An application's log may take its time: what is logged while a call is let go of does.
struct SlowLog;
impl log::Log for SlowLog {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() == log::Level::Debug
    }
    fn log(&self, r: &log::Record) {
        if r.level() == log::Level::Debug && r.target() == "ringrtc::core::call" {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    fn flush(&self) {}
}

pub fn main(args: &Args) {
    if args.get("slow").is_some() {
        log::set_logger(&SlowLog).unwrap();
        log::set_max_level(log::LevelFilter::Debug);
    }
    let scripts = args.scripts();
    // threads can be told apart only when one episode runs at a time
    let count = args.get("count").is_some();
    let threads = if count { 1 } else { args.num("threads", 6) as usize };
    let batched = args.get("batched").is_some();
    let seed = args.num("seed", 1);
    let mut out = args.out();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: Mutex<Vec<Option<Vec<Value>>>> = Mutex::new(vec![None; scripts.len()]);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= scripts.len() {
                        break;
                    }
                    let mut t = vec![];
                    for _ in 0..3 {
                        let (done, events) = watched(&scripts[i], seed * 100_000 + i as u64, batched, count);
                        t = events;
                        if done {
                            break;
                        }
                        // stuck every time: not by chance
                        t.push(json!({"ev": "Panic", "op": {"op": "settle"}, "what": "no end"}));
                    }
                    results.lock().unwrap()[i] = Some(t);
                }
            });
        }
    });
    for r in results.into_inner().unwrap() {
        for v in r.unwrap() {
            out.ev(v);
        }
    }
}
