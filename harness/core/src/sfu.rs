//! lite/sfu.rs, lite/call_links.rs: requests to the calling server and what their answers mean.
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
    time::SystemTime,
};

use base64::{Engine, engine::general_purpose::STANDARD};
use ringrtc::{
    lite::{
        call_links::{self, CallLinkMemberResolver, CallLinkRestrictions, CallLinkRootKey, CallLinkState},
        http::{Client, Method, Request, Response, ResponseCallback},
        sfu::{self, ClientStatus, GroupMember, JoinResponse, MemberMap, MemberResolver, ObfuscatedResolver, PeekArgs, PeekDeviceInfo, PeekInfo},
    },
    protobuf::group_call::sfu_to_device::{PeekInfo as ProtoPeek, peek_info},
};
use sha2::{Digest, Sha256};
use vpcommon::*;
use zkgroup::{Aci, call_links::CallLinkSecretParams};

fn s(v: &Value) -> &str {
    v.as_str().unwrap()
}
fn b64(b: &[u8]) -> String {
    STANDARD.encode(b)
}
fn crn(name: &str) -> [u8; 16] {
    std::array::from_fn(|i| if name == "A" { 0x10 + i as u8 } else { 0xe0 - i as u8 })
}
fn key(v: &Value) -> CallLinkRootKey {
    let mut b = crn(s(&v["crn"])).to_vec();
    if v["v"] == 1 {
        let epoch = s(&v["epoch"]);
        b.push(if epoch == "none" { 0x81 } else { 1 });
        b.extend(if epoch == "none" { 0 } else { epoch.parse::<u32>().unwrap() }.to_be_bytes());
    }
    CallLinkRootKey::try_from(b.as_slice()).unwrap()
}
fn about(k: &CallLinkRootKey) -> Value {
    let b = k.as_slice();
    let name = ["A", "B"].into_iter().find(|n| b[..16] == crn(n)).unwrap_or("?");
    if b.len() == 16 {
        json!({"v": 0, "crn": name, "epoch": ""})
    } else {
        let e = u32::from_be_bytes(b[17..21].try_into().unwrap());
        json!({"v": b[16] & 0x7f, "crn": name, "epoch": if b[16] & 0x80 != 0 { "none".to_string() } else { e.to_string() }})
    }
}
fn opt_key(op: &Value) -> Option<CallLinkRootKey> {
    op["key"].as_array().unwrap().first().map(key)
}

/// Users are numbered; a group knows them by names, a link by 16 bytes.
fn uuid(user: &str) -> [u8; 16] {
    let n: u16 = user[1..].parse().unwrap();
    let mut b = [0xa0; 16];
    b[7..9].copy_from_slice(&n.to_be_bytes());
    b
}
fn user(id: &[u8]) -> String {
    if id.len() == 16 && id[..7] == [0xa0; 7] {
        format!("u{}", u16::from_be_bytes(id[7..9].try_into().unwrap()))
    } else {
        String::from_utf8_lossy(id).into_owned()
    }
}
fn cipher(c: &str, u: &str) -> Vec<u8> {
    zkgroup::serialize(&CallLinkSecretParams::derive_from_root_key(&crn(c)).encrypt_uid(Aci::from_uuid_bytes(uuid(u))))
}
fn resolver(v: &Value) -> Arc<dyn MemberResolver + Send + Sync> {
    if v["kind"] == "map" {
        let m: Vec<_> = v["members"]
            .as_array()
            .unwrap()
            .iter()
            .map(|m| GroupMember { user_id: s(&m["user"]).as_bytes().to_vec(), member_id: s(&m["m"]).as_bytes().to_vec() })
            .collect();
        Arc::new(MemberMap::new(&m))
    } else {
        Arc::new(CallLinkMemberResolver::from(&key(&json!({"v": 0, "crn": v["crn"], "epoch": ""}))))
    }
}

fn text(v: &Value) -> String {
    match s(&v["t"]) {
        "s" => s(&v["v"]).to_string(),
        "mid" => hex(&Sha256::digest(s(&v["m"]).as_bytes())),
        "uid" => hex(&cipher(s(&v["crn"]), s(&v["user"]))),
        "sealed" => b64(&key(&v["key"]).encrypt(s(&v["name"]).as_bytes(), rand::rngs::OsRng)),
        o => panic!("text {o}"),
    }
}
fn render(v: &Value) -> String {
    match s(&v["t"]) {
        "n" => s(&v["v"]).to_string(),
        "b" => v["v"].to_string(),
        "null" => "null".to_string(),
        "a" => format!("[{}]", v["v"].as_array().unwrap().iter().map(render).collect::<Vec<_>>().join(",")),
        "o" => {
            let f: Vec<String> = v["v"].as_array().unwrap().iter().map(|f| format!("{}:{}", f["k"], render(&f["v"]))).collect();
            format!("{{{}}}", f.join(", "))
        }
        _ => Value::from(text(v)).to_string(),
    }
}
fn body(v: &Value) -> Vec<u8> {
    match s(&v["t"]) {
        "raw" => s(&v["v"]).as_bytes().to_vec(),
        "bytes" => vec![b'"', 0xff, b'"'],
        _ => render(v).into_bytes(),
    }
}

#[derive(Default)]
struct Server {
    asked: Mutex<Vec<Value>>,
    waiting: Mutex<Vec<ResponseCallback>>,
}
impl Client for Server {
    fn send_request(&self, r: Request, callback: ResponseCallback) {
        let mut headers: Vec<_> = r.headers.into_iter().collect();
        headers.sort();
        let body = match r.body {
            None => json!([]),
            Some(b) => match serde_json::from_slice::<HashMap<String, Value>>(&b) {
                Ok(f) => f
                    .iter()
                    .map(|(k, v)| match v {
                        Value::String(t) => json!([k, "s", t]),
                        Value::Bool(t) => json!([k, "b", t.to_string()]),
                        o => json!([k, "?", o.to_string()]),
                    })
                    .collect(),
                Err(_) => json!([["?", "?", "?"]]),
            },
        };
        let method = match r.method {
            Method::Get => "GET",
            Method::Put => "PUT",
            Method::Post => "POST",
            Method::Delete => "DELETE",
        };
        self.asked.lock().unwrap().push(json!({"method": method, "url": r.url, "headers": headers, "body": body}));
        self.waiting.lock().unwrap().push(callback);
    }
}

fn link(l: &CallLinkState) -> Value {
    json!({
        "name": l.name,
        "restrictions": match l.restrictions {
            CallLinkRestrictions::None => "none",
            CallLinkRestrictions::AdminApproval => "adminApproval",
            CallLinkRestrictions::Unknown => "unknown",
        },
        "revoked": l.revoked,
        "expiration": l.expiration.duration_since(SystemTime::UNIX_EPOCH).map_or(-1, |d| d.as_secs() as i64).to_string(),
        "key": about(&l.root_key),
    })
}
fn list<T: ToString>(o: &Option<T>) -> Value {
    json!(o.iter().map(|x| x.to_string()).collect::<Vec<_>>())
}
fn devs(d: &[PeekDeviceInfo]) -> Value {
    d.iter().map(|d| json!({"demux": d.demux_id.to_string(), "user": d.user_id.as_deref().map_or(String::new(), user)})).collect()
}
fn peek(p: &PeekInfo) -> Value {
    let mut users: Vec<_> = p.unique_users().into_iter().map(|u| user(u)).collect();
    users.sort();
    json!({"peek": {
        "era": list(&p.era_id), "max": list(&p.max_devices), "devices": devs(&p.devices), "pending": devs(&p.pending_devices),
        "creator": p.creator.as_deref().map_or(String::new(), user),
        "link": p.call_link_state.iter().map(link).collect::<Vec<_>>(),
        "users": users, "asking": p.unique_pending_users().into_iter().map(|u| user(u)).collect::<Vec<_>>(),
        "count": p.device_count_including_pending_devices(),
    }})
}
fn join(j: &JoinResponse) -> Value {
    let a = |l: &[std::net::SocketAddr]| l.iter().map(|a| json!([a.ip().to_string(), a.port().to_string()])).collect::<Value>();
    json!({"join": {
        "demux": j.client_demux_id.to_string(), "udp": a(&j.server_udp_addresses), "tcp": a(&j.server_tcp_addresses), "tls": a(&j.server_tls_addresses),
        "hostname": list(&j.server_hostname), "ufrag": j.server_ice_ufrag, "pwd": j.server_ice_pwd, "dhe": hex(&j.server_dhe_pub_key),
        "creator": j.call_creator.as_deref().map_or(String::new(), user), "era": j.era_id,
        "status": match j.client_status { ClientStatus::Active => "active", ClientStatus::Pending => "pending", ClientStatus::Blocked => "blocked" },
    }})
}

type Results = Arc<Mutex<Vec<Value>>>;
fn done<T: 'static>(r: &Results, show: fn(&T) -> Value) -> Box<dyn FnOnce(Result<T, ringrtc::lite::http::ResponseStatus>) + Send> {
    let r = r.clone();
    Box::new(move |x| r.lock().unwrap().push(x.as_ref().map_or_else(|e| json!({"err": e.code}), show)))
}

fn ask(server: &Server, op: &Value, r: &Results) {
    let url = format!("{}{}", s(&op["base"]), "/".repeat(op["slashes"].as_u64().unwrap() as usize));
    let first = |k: &str| op[k].as_array().unwrap().first().cloned();
    let auth = s(&op["auth"]);
    match s(&op["kind"]) {
        "peek" => sfu::peek(
            server,
            &url,
            PeekArgs {
                room_id_header: Some(s(&op["room"]).to_string()).filter(|r| !r.is_empty()),
                auth_header: auth.to_string(),
                member_resolver: resolver(&op["resolver"]),
                call_link_root_key: opt_key(op),
            },
            done(r, peek),
        ),
        "join" => sfu::join(
            server,
            &url,
            Some(s(&op["room"]).to_string()).filter(|r| !r.is_empty()),
            opt_key(op),
            auth.to_string(),
            first("passkey").as_ref().map(|p| s(p).as_bytes()),
            s(&op["ufrag"]),
            s(&op["pwd"]),
            s(&op["dhe"]).as_bytes(),
            s(&op["hkdf"]).as_bytes(),
            resolver(&op["resolver"]),
            done(r, join),
        ),
        kind => {
            let (k, auth, passkey) = (opt_key(op).unwrap(), auth.as_bytes(), s(&op["passkey"]).as_bytes());
            let restrictions = match s(&op["restrictions"]) {
                "" => None,
                "none" => Some(CallLinkRestrictions::None),
                _ => Some(CallLinkRestrictions::AdminApproval),
            };
            match kind {
                "read" => call_links::read_call_link(server, &url, k, auth, done(r, |l| json!({"link": link(l)}))),
                "create" => {
                    call_links::create_call_link(server, &url, k, auth, passkey, s(&op["zk"]).as_bytes(), restrictions, done(r, |l| json!({"link": link(l)})))
                }
                "update" => {
                    let name = first("name");
                    let request = call_links::CallLinkUpdateRequest {
                        admin_passkey: passkey,
                        encrypted_name: name.as_ref().map(|n| s(n).as_bytes()),
                        restrictions,
                        revoked: first("revoked").map(|r| r == true),
                    };
                    call_links::update_call_link(server, &url, k, auth, &request, done(r, |l| json!({"link": link(l)})))
                }
                _ => call_links::delete_call_link(
                    server,
                    &url,
                    k,
                    auth,
                    &call_links::CallLinkDeleteRequest { admin_passkey: passkey },
                    done(r, |_| json!({"empty": true})),
                ),
            }
        }
    }
}

fn operate(tr: &mut Tracer, op: &Value, ans: &Value) {
    let out = catch(|| {
        let (server, r) = (Server::default(), Results::default());
        ask(&server, op, &r);
        let early = r.lock().unwrap().len();
        let waiting = std::mem::take(&mut *server.waiting.lock().unwrap());
        for w in waiting {
            w((ans["fail"] == false).then(|| Response { status: (ans["code"].as_u64().unwrap() as u16).into(), body: body(&ans["body"]) }));
        }
        json!({"asked": *server.asked.lock().unwrap(), "early": early, "results": *r.lock().unwrap()})
    });
    match out {
        Ok(o) => tr.ev(json!({"ev": "Op", "op": op, "ans": ans, "obs": o})),
        Err(p) => tr.ev(json!({"ev": "Panic", "op": op, "ans": ans, "obs": {"panic": p}})),
    }
}

// ---------------------------------------------------------------------- random answers
fn some_value(r: &mut Rng, who: bool) -> Value {
    match if who { r.below(8) } else { *r.pick(&[0, 1, 2, 3, 6, 7]) } {
        0 => json!({"t": "null"}),
        1 => json!({"t": "s", "v": *r.pick(&["", "x", "ACTIVE", "none", "10.0.0.1"])}),
        2 => json!({"t": "b", "v": r.chance(1, 2)}),
        3 => json!({"t": "o", "v": []}),
        4 => json!({"t": "mid", "m": *r.pick(&["m1", "m2", "m3"])}),
        5 => json!({"t": "uid", "crn": *r.pick(&["A", "B"]), "user": *r.pick(&["u1", "u2"])}),
        _ => json!({"t": "n", "v": *r.pick(&["0", "16", "443", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-1", "1.5"])}),
    }
}
/// leaves valid answers valid about half of the time
fn disturb(r: &mut Rng, v: &mut Value) {
    let t = s(&v["t"]).to_string();
    if (t == "a" || t == "o") && r.chance(9, 10) {
        let l = v["v"].as_array_mut().unwrap();
        match r.below(5) {
            0 if !l.is_empty() => {
                let i = r.below(l.len() as u64) as usize;
                l.remove(i);
            }
            1 if t == "a" && !l.is_empty() => {
                let i = r.below(l.len() as u64) as usize;
                let x = l[i].clone();
                l.push(x);
            }
            2 if l.len() > 1 => {
                let i = r.below(l.len() as u64) as usize;
                l.swap(0, i);
            }
            _ if !l.is_empty() => {
                let i = r.below(l.len() as u64) as usize;
                let inner = if t == "o" { &mut l[i]["v"] } else { &mut l[i] };
                disturb(r, inner);
            }
            _ => {}
        }
    } else {
        *v = some_value(r, t == "mid" || t == "uid");
    }
}

/// Many lookups with one resolver, as text and as bytes.
fn lookups(tr: &mut Tracer, r: &mut Rng) {
    tr.ev(json!({"ev": "Reset"}));
    let res = json!({"kind": "link", "crn": "A"});
    let who = resolver(&res);
    let people = r.range(2, 40);
    for _ in 0..r.range(20, 120) {
        let c = if r.chance(1, 8) { "B" } else { "A" };
        let u = format!("u{}", r.range(1, people));
        let id = if r.chance(1, 12) {
            json!({"t": "s", "v": *r.pick(&["", "zz", "00", "x"])})
        } else {
            json!({"t": "uid", "crn": c, "user": u})
        };
        let bytes = r.chance(1, 3);
        let o = catch(|| {
            let t = text(&id);
            let u = if bytes { who.resolve_bytes(&(if id["t"] == "s" { t.into_bytes() } else { cipher(c, &u) })) } else { who.resolve(&t) };
            json!({"user": u.as_deref().map_or(String::new(), user)})
        });
        match o {
            Ok(o) => tr.ev(json!({"ev": "Lookup", "resolver": res, "id": id, "obs": o})),
            Err(p) => tr.ev(json!({"ev": "Panic", "obs": {"panic": p}})),
        }
    }
}

fn proto(tr: &mut Tracer, r: &mut Rng) {
    let linked = r.chance(1, 2);
    let res = if linked { json!({"kind": "link", "crn": *r.pick(&["A", "B"])}) } else { json!({"kind": "map", "members": [{"user": "u1", "m": "m1"}, {"user": "u2", "m": "m2"}]}) };
    let k = |r: &mut Rng| r.pick(&[json!({"v": 0, "crn": "A", "epoch": ""}), json!({"v": 1, "crn": "A", "epoch": "7"}), json!({"v": 1, "crn": "B", "epoch": "4294967295"})]).clone();
    let id = |r: &mut Rng| match r.below(3) {
        0 => json!({"t": "mid", "m": *r.pick(&["m1", "m2", "m3"])}),
        1 => json!({"t": "uid", "crn": *r.pick(&["A", "B"]), "user": *r.pick(&["u1", "u2", "u9"])}),
        _ => json!({"t": "s", "v": *r.pick(&["", "x", "00"])}),
    };
    let opt = |r: &mut Rng, v: Value| if r.chance(14, 15) { json!([v]) } else { json!([]) };
    let list = |r: &mut Rng| -> Value {
        (0..r.below(4))
            .map(|_| {
                let (d, i) = (r.pick(&["0", "16", "4294967295"]).to_string(), id(r));
                json!({"demux": opt(r, json!(d)), "id": opt(r, i)})
            })
            .collect()
    };
    let op = json!({"resolver": res, "key": if r.chance(3, 4) { json!([k(r)]) } else { json!([]) }});
    let link = if r.chance(1, 2) {
        let name = if r.chance(3, 4) { json!({"t": "sealed", "key": k(r), "name": "Talk"}) } else { json!({"t": "s", "v": *r.pick(&["", "x", "AAAA"])}) };
        let (n, b) = (r.below(2), r.chance(1, 2));
        let e = *r.pick(&["0", "287454020", "9223372036854775807", "9223372036854775808", "18446744073709551615"]);
        let (name, n, b, e) = (opt(r, name), opt(r, json!(n)), opt(r, json!(b)), opt(r, json!(e)));
        json!([{"name": name, "restrictions": n, "revoked": b, "expiration": e}])
    } else {
        json!([])
    };
    let i = id(r);
    let (era, max, creator, devices, pending) = (opt(r, json!("era")), opt(r, json!("16")), opt(r, i), list(r), list(r));
    let p = json!({"era": era, "max": max, "creator": creator, "devices": devices, "pending": pending, "link": link});
    let first = |v: &Value| v.as_array().unwrap().first().cloned();
    let device = |d: &Value| peek_info::PeekDeviceInfo {
        demux_id: first(&d["demux"]).map(|n| s(&n).parse().unwrap()),
        opaque_user_id: first(&d["id"]).as_ref().map(text),
    };
    let m = ProtoPeek {
        era_id: first(&p["era"]).map(|e| s(&e).to_string()),
        max_devices: first(&p["max"]).map(|e| s(&e).parse().unwrap()),
        creator: first(&p["creator"]).as_ref().map(text),
        devices: p["devices"].as_array().unwrap().iter().map(device).collect(),
        pending_devices: p["pending"].as_array().unwrap().iter().map(device).collect(),
        call_link_state: first(&p["link"]).map(|l| peek_info::CallLinkState {
            encrypted_name: first(&l["name"]).as_ref().map(text),
            restrictions: first(&l["restrictions"]).map(|n| n.as_i64().unwrap() as i32),
            revoked: first(&l["revoked"]).map(|b| b == true),
            expiration_unix_timestamp: first(&l["expiration"]).map(|n| s(&n).parse().unwrap()),
        }),
    };
    let o = catch(|| match PeekInfo::deobfuscate_proto(m, &ObfuscatedResolver::new(resolver(&op["resolver"]), opt_key(&op), None)) {
        Ok(x) => peek(&x),
        Err(_) => json!({"err": 0}),
    });
    match o {
        Ok(o) => tr.ev(json!({"ev": "Proto", "op": op, "p": p, "obs": {"results": [o]}})),
        Err(e) => tr.ev(json!({"ev": "Panic", "op": op, "p": p, "obs": {"panic": e}})),
    }
}

pub fn main(args: &Args) {
    let mut tr = args.out();
    let mut r = Rng::new(args.num("seed", 1));
    let scripts = args.scripts();
    for (i, x) in scripts.iter().enumerate() {
        if i % 20 == 0 {
            tr.ev(json!({"ev": "Reset"}));
        }
        operate(&mut tr, &x[0], &x[1]);
    }
    if !scripts.is_empty() {
        for i in 0..args.num("n", 0) {
            if i % 20 == 0 {
                tr.ev(json!({"ev": "Reset"}));
            }
            // the operation of one behaviour with the disturbed answer of another one of that kind
            let x = r.pick(&scripts).clone();
            let y = r.pick(&scripts).clone();
            let (op, mut ans) = (x[0].clone(), if y[0]["kind"] == x[0]["kind"] { y[1].clone() } else { x[1].clone() });
            if ans["fail"] == false && ans["body"]["t"] == "o" {
                for _ in 0..r.range(1, 3) {
                    disturb(&mut r, &mut ans["body"]);
                }
                if ans["body"]["t"] == "a" || ans["body"]["v"].as_array().is_some_and(|l| has_duplicates(l)) {
                    continue;
                }
            }
            operate(&mut tr, &op, &ans);
        }
        return;
    }
    for _ in 0..args.num("lookups", 0) {
        lookups(&mut tr, &mut r);
    }
    for i in 0..args.num("protos", 0) {
        if i % 20 == 0 {
            tr.ev(json!({"ev": "Reset"}));
        }
        proto(&mut tr, &mut r);
    }
    tr.ev(json!({"ev": "Reset"}));
    for p in ["a:b", "abc", "", ":1", "é:1"] {
        tr.ev(json!({"ev": "Proof", "proof": p, "obs": {"header": sfu::auth_header_from_membership_proof(p.as_bytes()).into_iter().collect::<Vec<_>>()}}));
    }
    tr.ev(json!({"ev": "Proof", "proof": "bytes", "obs": {"header": sfu::auth_header_from_membership_proof(&[b'a', 0xff]).into_iter().collect::<Vec<_>>()}}));
}

fn has_duplicates(l: &[Value]) -> bool {
    l.iter().enumerate().any(|(i, a)| l[..i].iter().any(|b| a["k"] == b["k"]))
}
