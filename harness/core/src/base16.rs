//! lite/call_links/{base16,root_key}.rs: texts of root keys, sealed names, rooms.
use ringrtc::lite::call_links::{CallLinkResponse, CallLinkRootKey};
use vpcommon::*;

#[allow(dead_code)]
#[path = "/repo/src/rust/src/lite/call_links/base16.rs"]
mod code;
use code::ConsonantBase16;

const LETTERS: &str = "bcdfghkmnpqrstxz";
const C0: &[usize] = &[2, 2, 2, 2, 2, 2, 2, 2];
const C1: &[usize] = &[4, 4, 4, 4, 1, 4];

fn chars(t: &str) -> Vec<String> {
    t.chars().map(|c| c.to_string()).collect()
}

fn ask(tr: &mut Tracer, mut v: Value, f: impl FnOnce() -> Value) {
    match catch(f) {
        Ok(o) => v["obs"] = o,
        Err(p) => v = json!({"ev": "Panic", "obs": {"panic": format!("{p} at {v}")}}),
    }
    tr.ev(v);
}

fn parse(tr: &mut Tracer, t: &str, chunks: &[usize]) {
    ask(tr, json!({"ev": "Parse", "text": chars(t), "chunks": chunks}), || {
        match ConsonantBase16::parse_with_separators(t, chunks.iter().copied()) {
            Ok(b) => json!({"v": [b]}),
            Err(_) => json!({"v": []}),
        }
    });
}

fn format(tr: &mut Tracer, b: &[u8], c: usize) {
    ask(tr, json!({"ev": "Format", "bytes": b, "chunks": vec![c; b.len() / c + 1]}), || {
        json!({"text": chars(&format!("{:-^.*}", c, ConsonantBase16::from(b)))})
    });
}

fn about(k: &CallLinkRootKey) -> Value {
    let v = matches!(k, CallLinkRootKey::V1(_)) as u8;
    json!({"v": v, "bytes": k.as_slice(), "usable": k.is_valid(), "text": chars(&k.to_formatted_string())})
}

fn key_text(tr: &mut Tracer, t: &str) {
    ask(tr, json!({"ev": "KeyText", "text": chars(t)}), || {
        CallLinkRootKey::try_from(t).map_or(json!({"v": 9}), |k| about(&k))
    });
}

fn key_bytes(tr: &mut Tracer, b: &[u8]) {
    ask(tr, json!({"ev": "KeyBytes", "bytes": b}), || {
        CallLinkRootKey::try_from(b).map_or(json!({"v": 9}), |k| about(&k))
    });
}

/// root key bytes acceptable to the code
fn some_key(r: &mut Rng, crn: Option<[u8; 16]>) -> Vec<u8> {
    loop {
        let mut b: Vec<u8> = match crn {
            Some(c) => c.to_vec(),
            None => (0..16).map(|_| r.next() as u8).collect(),
        };
        if r.chance(2, 3) {
            b.push(*r.pick(&[1, 1, 0x81]));
            b.extend((0..4).map(|_| *r.pick(&[0, 1, 0x7f, 0x80, 0xff])));
        }
        if CallLinkRootKey::try_from(b.as_slice()).is_ok() {
            return b;
        }
    }
}

fn rand_bytes(r: &mut Rng, n: u64) -> Vec<u8> {
    (0..n).map(|_| if r.chance(1, 4) { *r.pick(&[0, 0x11, 0x55, 0xff, 0x80, 1]) } else { r.next() as u8 }).collect()
}

fn mutate(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 2) {
        let i = r.below(c.len() as u64 + 1) as usize;
        let x = *r.pick(&['-', '-', 'b', 'z', 'a', 'B', ' ', 'é', '\u{1F600}', 'k', '_', '0']);
        match r.below(6) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => c.insert(i, x),
            2 if i < c.len() => c[i] = x,
            3 => c.truncate(i),
            4 => c.extend([x, 'b']),
            _ => {
                if let Some(p) = c.iter().position(|&x| x == '-') {
                    let n = r.below(2) as usize;
                    c.remove(p);
                    c.insert((p + n).min(c.len()), if r.chance(1, 2) { '-' } else { 'c' });
                }
            }
        }
    }
    c.into_iter().collect()
}

fn names(tr: &mut Tracer, r: &mut Rng) {
    let crn: [u8; 16] = some_key(r, None)[..16].try_into().unwrap();
    let mut keys: Vec<Vec<u8>> = (0..3).map(|_| some_key(r, Some(crn))).collect();
    keys.push(some_key(r, None));
    let mut near = crn;
    near[15] ^= 4;
    if CallLinkRootKey::try_from(near.as_slice()).is_ok() {
        keys.push(near.to_vec());
    }
    let mut sealed: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(2, 6) {
        let k = r.pick(&keys).clone();
        let n = *r.pick(&[0, 1, 17, 18, 19, 20, 31, 32, 50, 51, 52, 83]);
        let mut name = rand_bytes(r, n);
        if r.chance(1, 3) {
            name.extend(vec![0; r.below(3) as usize]);
        }
        if r.chance(1, 3) {
            name.extend([0x80, 0].into_iter().take(r.range(1, 2) as usize));
        }
        let mut out = vec![];
        let before = sealed.clone();
        ask(tr, json!({"ev": "Seal", "key": k, "name": name}), || {
            out = CallLinkRootKey::try_from(k.as_slice()).unwrap().encrypt(&name, rand::rngs::OsRng);
            // the same name never looks the same
            let fresh = before.iter().all(|s| s[..12] != out[..12]) && (name.len() < 8 || !out.windows(8).any(|w| w == &name[..8]));
            json!({"length": out.len(), "fresh": fresh})
        });
        sealed.push(out);
    }
    for k in &keys {
        for _ in 0..2 {
            let rk = CallLinkRootKey::try_from(k.as_slice()).unwrap();
            ask(tr, json!({"ev": "Room", "key": k}), || {
                let room = hex(&rk.derive_room_id());
                json!({"room": room, "length": room.len()})
            });
        }
        for (i, s) in sealed.iter().enumerate() {
            let rk = CallLinkRootKey::try_from(k.as_slice()).unwrap();
            for alter in ["none", "flip", "cut", "grow"] {
                let mut c = s.clone();
                match alter {
                    "flip" => {
                        let n = r.below(c.len() as u64) as usize;
                        c[n] ^= 1 << r.below(8);
                    }
                    "cut" => c.truncate(if r.chance(1, 3) { r.below(30) } else { r.below(c.len() as u64) } as usize),
                    "grow" => c.push(r.next() as u8),
                    _ => (),
                }
                ask(tr, json!({"ev": "Unseal", "k": i + 1, "key": k, "alter": alter}), || match rk.decrypt(&c) {
                    Ok(n) => json!({"name": [n]}),
                    Err(_) => json!({"name": []}),
                });
            }
        }
        for epoch in [None, Some(0u32), Some(1), Some(u32::MAX), Some(0x0180_ff00)] {
            let e: Vec<u8> = epoch.map_or(vec![], |e| e.to_be_bytes().to_vec());
            ask(tr, json!({"ev": "Complete", "key": k, "epoch": e}), || {
                let mut j = json!({"name": "", "restrictions": "none", "revoked": false, "expiration": 5});
                if let Some(e) = epoch {
                    j["epoch"] = json!(e);
                }
                let j = j.to_string();
                let resp: CallLinkResponse = serde_json::from_str(&j).unwrap();
                let rk = CallLinkRootKey::try_from(k.as_slice()).unwrap();
                match rk.process_server_response(&resp).expect("ok") {
                    None => json!({"v": 8, "bytes": []}),
                    Some(n) => json!({"v": matches!(n, CallLinkRootKey::V1(_)) as u8, "bytes": n.as_slice()}),
                }
            });
        }
    }
}

pub fn main(args: &Args) {
    let mut tr = args.out();
    let n = args.num("n", 1000);
    let mut r = Rng::new(args.num("seed", 1));
    let reset = |tr: &mut Tracer| tr.ev(json!({"ev": "Reset"}));
    // every short text
    let cs = ["b", "z", "-", "?", "é"];
    let max = args.num("len", 6);
    for len in 0..=max {
        reset(&mut tr);
        for mut k in 0..(cs.len() as u64).pow(len as u32) {
            let t: String = (0..len)
                .map(|_| {
                    let c = cs[(k % cs.len() as u64) as usize];
                    k /= cs.len() as u64;
                    c
                })
                .collect();
            for g in [&[1usize, 1][..], &[2, 1], &[1]] {
                parse(&mut tr, &t, g);
            }
        }
    }
    reset(&mut tr);
    for b in 0..=255u8 {
        parse(&mut tr, &format!("{}", ConsonantBase16::from(&[b][..])), &[1]);
        format(&mut tr, &[b], 1);
        format(&mut tr, &[b, 255 - b, b, 7, b], 1 + (b % 5) as usize);
    }
    for a in LETTERS.chars() {
        for b in "abcdefghijklmnopqrstuvwxyzBZ09".chars() {
            parse(&mut tr, &format!("{a}{b}"), &[1]);
            parse(&mut tr, &format!("{b}{a}"), &[1]);
        }
    }
    // every pair of bytes at every place decides about the key
    reset(&mut tr);
    for i in 0..8 {
        for v in 0..16u8 {
            for (a, b) in [(v * 17, v * 17), (v * 17, v * 17 ^ 1), (v * 16, v * 16), (v * 17, (v ^ 1) * 17)] {
                let mut k: Vec<u8> = (0..16).map(|x| x * 7 + 3).collect();
                k[2 * i] = a;
                k[2 * i + 1] = b;
                key_bytes(&mut tr, &k);
                let mut k1 = k.clone();
                k1.extend([1, 0, 0, 0, 0]);
                key_bytes(&mut tr, &k1);
                // the same bytes straddling two pairs are fine
                if i < 7 {
                    k = (0..16).map(|x| x * 7 + 3).collect();
                    k[2 * i + 1] = a;
                    k[2 * i + 2] = b;
                    key_bytes(&mut tr, &k);
                }
            }
        }
    }
    for ver in 0..=255u8 {
        let mut k: Vec<u8> = (0..16).map(|x| x * 7 + 3).collect();
        k.extend([ver, 0x11, 0x11, ver, 9]);
        key_bytes(&mut tr, &k);
    }
    for len in 0..40 {
        key_bytes(&mut tr, &(0..len).map(|x| x * 5 + 1).collect::<Vec<u8>>());
    }
    for _ in 0..n {
        reset(&mut tr);
        for _ in 0..8 {
            let b = some_key(&mut r, None);
            let t = CallLinkRootKey::try_from(b.as_slice()).unwrap().to_formatted_string();
            key_bytes(&mut tr, &b);
            key_text(&mut tr, &t);
            let m = mutate(&mut r, &t);
            key_text(&mut tr, &m);
            parse(&mut tr, &m, if r.chance(1, 2) { C0 } else { C1 });
            let len = r.below(24);
            let any = rand_bytes(&mut r, len);
            key_bytes(&mut tr, &any);
            let c = r.range(1, 5) as usize;
            format(&mut tr, &any, c);
            // any bytes, written either way
            for g in [2, 4] {
                key_text(&mut tr, &format!("{:-^.*}", g, ConsonantBase16::from(any.as_slice())));
            }
        }
        ask(&mut tr, json!({"ev": "Fresh"}), || {
            let k = CallLinkRootKey::generate(rand::rngs::OsRng);
            let mut v = about(&k);
            v["v1"] = json!(true);
            v
        });
    }
    for _ in 0..n / 20 {
        reset(&mut tr);
        names(&mut tr, &mut r);
    }
}
