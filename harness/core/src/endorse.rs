//! Drives core::endorsements::EndorsementsCache.
use ringrtc::{core::endorsements::EndorsementsCache, lite::sfu::UserId};
use std::{
    collections::HashMap,
    time::{Duration, Instant, SystemTime},
};
use vpcommon::*;
use zkgroup::{Timestamp, call_links::CallLinkSecretParams, groups::GroupSendEndorsement};

const HALF_DAY: u64 = 43_200;
fn at(x: &Value) -> Timestamp {
    Timestamp::from_epoch_seconds(x.as_u64().unwrap() * HALF_DAY)
}
fn exp_of(t: Timestamp) -> Value {
    if t.epoch_seconds() % HALF_DAY == 0 { json!(t.epoch_seconds() / HALF_DAY) } else { json!("odd") }
}
fn uid(name: &str) -> UserId {
    let mut v = vec![0u8; 16];
    v[..name.len()].copy_from_slice(name.as_bytes());
    v
}
fn name(u: &UserId) -> String {
    String::from_utf8_lossy(u).trim_end_matches('\0').to_string()
}
fn endorsement(name: &str, exp: &Value, tag: u64) -> GroupSendEndorsement {
    GroupSendEndorsement {
        uid: uid(name).try_into().unwrap(),
        expiration: at(exp).epoch_seconds(),
        tag: tag as u32,
        combined: 1,
    }
}
fn set_json<'a>(exp: Timestamp, it: impl Iterator<Item = (&'a UserId, &'a GroupSendEndorsement)>) -> Value {
    let mut m = serde_json::Map::new();
    for (u, e) in it {
        let ok = e.uid.as_slice() == u.as_slice() && e.expiration == exp.epoch_seconds();
        m.insert(name(u), if ok { json!(e.tag) } else { json!("of another user or day") });
    }
    json!({"res": "set", "exp": exp_of(exp), "set": m})
}
fn names(v: &Value) -> Vec<UserId> {
    v.as_array().unwrap().iter().map(|x| uid(x.as_str().unwrap())).collect()
}

fn episode(out: &mut Tracer, script: &[Value], root: u8) {
    let params = CallLinkSecretParams::derive_from_root_key(&[root; 16]);
    let other_root = params.encrypt_uid(zkgroup::Aci::from_uuid_bytes([0; 16])).root;
    out.ev(json!({"ev": "Reset"}));
    let mut cache = EndorsementsCache::new(params);
    for op in script {
        // the cache orders events by the monotonic clock: keep them apart
        let t = Instant::now();
        while Instant::now() <= t {}
        let kind = op["op"].as_str().unwrap();
        let none = json!({"res": "none"});
        let r = catch(|| match kind {
            "insert" => {
                let m: HashMap<_, _> = op["users"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| {
                        let n = p[0].as_str().unwrap();
                        (uid(n), endorsement(n, &op["exp"], p[1].as_u64().unwrap()))
                    })
                    .collect();
                cache.insert(at(&op["exp"]), m);
                json!({"res": "done"})
            }
            "invalid" => {
                cache.set_invalid(op["exp"].as_i64().filter(|x| *x >= 0).map(|x| at(&json!(x))), "because".into());
                json!({"res": "done"})
            }
            "clear" => {
                let extra = op.get("extra").and_then(|x| x.as_u64()).unwrap_or(0);
                cache.clear_expired(SystemTime::from(at(&op["now"])) + Duration::from_nanos(extra));
                json!({"res": "done"})
            }
            "token" => match cache.get_token_for(at(&op["exp"]), names(&op["users"])) {
                None => none,
                Some(t) => {
                    let mut want = [0u8; 16];
                    for u in names(&op["users"]) {
                        for i in 0..16 {
                            want[i] ^= u[i];
                        }
                    }
                    let e = &t.token.endorsement;
                    if t.token.root != other_root || e.uid != want {
                        json!({"res": "token of another key or users"})
                    } else {
                        json!({"res": "token", "exp": exp_of(t.expiration), "total": e.tag, "of": e.combined})
                    }
                }
            },
            "users" => {
                let us = names(&op["users"]);
                let exp = op["exp"].as_i64().filter(|x| *x >= 0).map(|x| at(&json!(x)));
                match cache.get_endorsements_for_users(exp, us.iter()) {
                    None => none,
                    Some((x, m)) => set_json(x, m.into_iter()),
                }
            }
            "forexp" => match cache.get_endorsements_for_expiration(at(&op["exp"])) {
                None => none,
                Some((x, m)) => set_json(x, m.iter()),
            },
            "latest" => match cache.get_latest() {
                None => none,
                Some((x, m)) => set_json(x, m.iter()),
            },
            "hasupdate" => json!({"res": "flag", "flag": cache.has_valid_update()}),
            o => panic!("op {o}"),
        });
        let mut e = op.clone();
        e["ev"] = json!(kind);
        match r {
            Ok(v) => e["obs"] = v,
            Err(p) => {
                out.ev(json!({"ev": "Panic", "obs": {"panic": p}}));
                return;
            }
        }
        out.ev(e);
    }
}

fn random(r: &mut Rng) -> Vec<Value> {
    let users = ["a", "b", "c", "d", "e", "f"];
    let exps = r.range(1, 4);
    let nu = r.range(1, 6) as usize;
    let few = |r: &mut Rng, dup: bool| -> Vec<&str> {
        let n = r.below(nu as u64 + 1);
        let mut v: Vec<&str> = (0..n).map(|_| *r.pick(&users[..nu])).collect();
        if !dup {
            v.sort();
            v.dedup();
        }
        v
    };
    let mut script = vec![];
    for _ in 0..r.range(5, 40) {
        let x = r.range(1, exps) * 2;
        let any: i64 = if r.chance(1, 4) { -1 } else { x as i64 };
        script.push(match r.weighted(&[6, 2, 2, 4, 4, 3, 3, 3]) {
            0 => {
                let us: Vec<Value> = few(r, false).iter().map(|u| json!([u, r.below(1000) + 1])).collect();
                json!({"op": "insert", "exp": x, "users": us})
            }
            1 => json!({"op": "invalid", "exp": any}),
            2 => json!({"op": "clear", "now": if r.chance(1, 2) { x } else { x.saturating_sub(1) }, "extra": r.pick(&[0u64, 0, 1, 999_999_999])}),
            3 => {
                let dup = r.chance(1, 4);
                json!({"op": "token", "exp": x, "users": few(r, dup)})
            }
            4 => json!({"op": "users", "exp": any, "users": few(r, false)}),
            5 => json!({"op": "forexp", "exp": x}),
            6 => json!({"op": "latest"}),
            _ => json!({"op": "hasupdate"}),
        });
    }
    script
}

pub fn main(args: &Args) {
    let mut out = args.out();
    let mut r = Rng::new(args.num("seed", 1));
    for s in args.scripts() {
        episode(&mut out, &s, r.below(256) as u8);
    }
    for _ in 0..args.num("n", 0) {
        let s = random(&mut r);
        episode(&mut out, &s, r.below(256) as u8);
    }
}
