//! Frame encryption: several real crypto::Context objects exchange keys and frames.
use std::{collections::HashMap, time::SystemTime};

use rand::{RngCore, SeedableRng, rngs::StdRng};
use ringrtc::core::crypto::{Context, Mac, Secret, random_secret};
use vpcommon::*;

struct Frame {
    s: usize,
    plain: Vec<u8>,
    ct: Vec<u8>,
    mac: Mac,
    c: u8,
    fc: u64,
}

#[derive(Default, Clone)]
struct ErrWin {
    first: Option<(SystemTime, SystemTime)>,
    last: Option<(SystemTime, SystemTime)>,
}

struct World {
    ctx: Vec<Context>,
    frames: Vec<Frame>,
    /// (owner, ratchet counter, secret)
    anns: Vec<(usize, u8, Secret)>,
    names: HashMap<Secret, usize>,
    keystreams: HashMap<Vec<u8>, ()>,
    wins: HashMap<(usize, u32), ErrWin>,
    rng: StdRng,
}

fn tick() {
    // consecutive operations get distinct clock values
    let t = SystemTime::now();
    while SystemTime::now() <= t {}
}

impl World {
    fn new(n: usize, seed: u64) -> Self {
        let mut rng = StdRng::seed_from_u64(seed);
        let ctx = (0..n)
            .map(|_| {
                Context::new(random_secret(&mut rng))
            })
            .collect();
        World { ctx, frames: vec![], anns: vec![], names: HashMap::new(), keystreams: HashMap::new(), wins: HashMap::new(), rng }
    }
    fn name(&mut self, s: Secret) -> usize {
        let n = self.names.len() + 1;
        *self.names.entry(s).or_insert(n)
    }
    fn stats(&mut self, r: usize) -> Value {
        let mut v: Vec<_> = self.ctx[r].get_error_stats().iter().map(|(k, s)| (*k, s.count)).filter(|x| x.1 > 0).collect();
        v.sort();
        json!(v)
    }

    fn step(&mut self, inp: &Value) -> Value {
        let op = inp["op"].as_str().unwrap().to_string();
        let g = |k: &str| inp[k].as_u64().unwrap() as usize;
        let mut ev = inp.clone();
        ev["ev"] = json!(op);
        tick();
        let r = catch(|| match op.as_str() {
            "Encrypt" => {
                let s = g("s");
                let mut plain = vec![0u8; g("len")];
                self.rng.fill_bytes(&mut plain);
                let mut ct = plain.clone();
                let mut mac = Mac::default();
                let (c, fc) = self.ctx[s - 1].encrypt(&mut ct, &mut mac).expect("encrypt");
                let n = plain.len().min(16);
                let (mut fresh, mut changed) = (true, true);
                if n == 16 {
                    let ks: Vec<u8> = (0..n).map(|i| plain[i] ^ ct[i]).collect();
                    fresh = self.keystreams.insert(ks, ()).is_none();
                    changed = ct != plain;
                }
                self.frames.push(Frame { s, plain, ct, mac, c, fc });
                (json!({"cnt": fc}), json!({"res": "ok", "c": c, "fcgrows": true, "ksfresh": fresh, "changed": changed}))
            }
            "Burst" => {
                let s = g("s");
                let (mut fresh, mut mono, mut last) = (true, true, 0);
                for i in 0..g("n") {
                    let mut d = [0u8; 16];
                    let mut mac = Mac::default();
                    let (_, fc) = self.ctx[s - 1].encrypt(&mut d, &mut mac).expect("encrypt");
                    mono &= i == 0 || fc > last;
                    last = fc;
                    fresh &= self.keystreams.insert(d.to_vec(), ()).is_none();
                }
                (json!({"cnt": last}), json!({"res": "ok", "fcgrows": mono, "ksfresh": fresh}))
            }
            "Advance" => {
                let s = g("s");
                let mut r = (0, Secret::default());
                for _ in 0..g("times") {
                    r = self.ctx[s - 1].advance_send_ratchet();
                }
                self.anns.push((s, r.0, r.1));
                let id = self.name(r.1);
                (json!({"secid": id}), json!({"res": "ok", "c": r.0}))
            }
            "ResetKey" => {
                let sec = random_secret(&mut self.rng);
                self.ctx[g("s") - 1].reset_send_ratchet(sec);
                (json!({}), json!({"res": "ok"}))
            }
            "Fresh" => {
                // many new secrets: all different, and every byte of them varies
                let all: Vec<Secret> = (0..200).map(|_| random_secret(&mut self.rng)).collect();
                let different: std::collections::HashSet<_> = all.iter().collect();
                let varied = (0..all[0].len()).all(|i| {
                    let at: std::collections::HashSet<_> = all.iter().map(|s| s[i]).collect();
                    at.len() > 40
                });
                (json!({}), json!({"res": "ok", "fresh": different.len() == all.len() && varied}))
            }
            "Announce" => {
                let s = g("s");
                let r = self.ctx[s - 1].send_state();
                self.anns.push((s, r.0, r.1));
                let id = self.name(r.1);
                (json!({"secid": id}), json!({"res": "ok", "c": r.0}))
            }
            "AddKey" => {
                let Some(a) = self.anns.get(g("a").wrapping_sub(1)).cloned() else { return (json!({"skip": true}), json!({})) };
                self.ctx[g("r") - 1].add_receive_secret(g("x") as u32, a.1, a.2);
                (json!({}), json!({"res": "ok"}))
            }
            "Decrypt" => {
                let (r, x) = (g("r"), g("x"));
                let Some(f) = self.frames.get(g("f").wrapping_sub(1)) else { return (json!({"skip": true}), json!({})) };
                let (mut data, mut mac, mut c, mut fc) = (f.ct.clone(), f.mac, f.c, f.fc);
                let pos = inp["pos"].as_u64().unwrap_or(0) as usize;
                let bit = 1u8 << (pos % 8);
                let mut alter = inp["alter"].as_str().unwrap().to_string();
                match alter.as_str() {
                    "none" | "sender" => {}
                    "data" if !data.is_empty() => { let n = data.len(); data[pos % n] ^= bit }
                    "trunc" if !data.is_empty() => { data.pop(); }
                    "data" | "trunc" | "extend" => { alter = "extend".into(); data.push(pos as u8) }
                    "mac" => { mac[pos % 16] ^= bit }
                    "ctr" => { c = c.wrapping_add(1 + (pos % 255) as u8) }
                    "fc" => { fc = if pos % 3 == 0 { fc + 1 } else if pos % 3 == 1 { fc ^ (1 << (pos % 31)) } else { fc + 256 } }
                    o => panic!("alter {o}"),
                }
                let before = data.clone();
                let plain = f.plain.clone();
                let t0 = SystemTime::now();
                let res = self.ctx[r - 1].decrypt(x as u32, c, fc, &mut data, &mac);
                let t1 = SystemTime::now();
                let ok = res.is_ok();
                if !ok {
                    let w = self.wins.entry((r, x as u32)).or_default();
                    w.first.get_or_insert((t0, t1));
                    w.last = Some((t0, t1));
                }
                // 31-bit values only in the trace
                let fcj = (fc & 0x7fff_ffff) as i64;
                (json!({"c": c, "fc": fcj, "alter": alter}),
                 json!({"res": if ok { "ok" } else { "err" }, "intact": if ok { data == plain } else { data == before },
                        "stats": self.stats(r - 1)}))
            }
            "Report" => {
                let r = g("r");
                let mut timesok = true;
                let mut v = vec![];
                if let Some(m) = self.ctx[r - 1].get_error_report() {
                    for (x, s) in m {
                        v.push((x, s.count));
                        if let Some(w) = self.wins.remove(&(r, x)) {
                            let (a, b) = (w.first.unwrap(), w.last.unwrap());
                            timesok &= s.start_time >= a.0 && s.start_time <= a.1 && s.last_time >= b.0 && s.last_time <= b.1;
                        }
                    }
                }
                v.sort();
                (json!({}), json!({"res": "ok", "report": v, "timesok": timesok, "stats": self.stats(r - 1)}))
            }
            o => panic!("unknown op {o}"),
        });
        match r {
            Ok((inputs, obs)) => {
                if let Value::Object(m) = inputs {
                    for (k, v) in m {
                        ev[k] = v;
                    }
                }
                ev["obs"] = obs;
            }
            Err(m) => {
                ev["ev"] = json!("Panic");
                ev["obs"] = json!({"panic": m});
            }
        }
        ev
    }
}

fn run(t: &mut Tracer, n: usize, seed: u64, mut next: impl FnMut(&World, usize) -> Option<Value>) {
    let mut w = World::new(n, seed);
    t.ev(json!({"ev": "Reset", "n": n}));
    let mut k = 0;
    while let Some(inp) = next(&w, k) {
        k += 1;
        let ev = w.step(&inp);
        if ev["skip"] == true {
            continue;
        }
        let stop = ev["ev"] == "Panic";
        t.ev(ev);
        if stop {
            break;
        }
    }
}

pub fn main(args: &Args) {
    let mut t = args.out();
    let (seed, n, len) = (args.num("seed", 1), args.num("n", 0), args.num("len", 80));
    for (i, s) in args.scripts().into_iter().enumerate() {
        let mut it = s.into_iter();
        let cfg = it.next().expect("config");
        run(&mut t, cfg["n"].as_u64().unwrap() as usize, i as u64, |_, _| it.next());
    }
    if args.get("giant").is_some() {
        // far beyond any plausible truncation of the counter in the keystream
        run(&mut t, 1, seed, |_, k| match k {
            0 => Some(json!({"op": "Burst", "s": 1, "n": 70_000})),
            1 => Some(json!({"op": "Advance", "s": 1, "times": 1})),
            2 => Some(json!({"op": "Burst", "s": 1, "n": 70_000})),
            3 => Some(json!({"op": "ResetKey", "s": 1})),
            4 => Some(json!({"op": "Burst", "s": 1, "n": 1000})),
            _ => None,
        });
    }
    for ep in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(7_000_003) + ep);
        let nodes = r.range(1, 3) as usize + 1;
        let alter_rate = *r.pick(&[0u64, 1, 3, 8]);
        let adv = *r.pick(&[2u64, 6, 14]);
        let reset = *r.pick(&[0u64, 1, 5]);
        let bursty = r.chance(1, 3);
        let alias = r.chance(1, 4);
        let jump = r.chance(1, 5);
        let deliver_keys = *r.pick(&[4u64, 8]);
        let senders = if r.chance(1, 2) { 1 } else { nodes as u64 };
        let mut x: std::collections::VecDeque<Value> = Default::default();
        let eager = r.chance(3, 4);
        if eager {
            for s in 1..=senders {
                x.push_back(json!({"op": "Announce", "s": s}));
                for q in 1..=nodes as u64 {
                    x.push_back(json!({"op": "AddKey", "r": q, "x": s, "a": s}));
                }
            }
        }
        let mut fresh = ep % 50 == 0;
        run(&mut t, nodes, seed ^ (ep << 20), |w, k| {
            if std::mem::take(&mut fresh) {
                return Some(json!({"op": "Fresh"}));
            }
            if let Some(v) = x.pop_front() {
                return Some(v);
            }
            if k as u64 >= len {
                return None;
            }
            let s = r.range(1, senders);
            let na = w.anns.len() as u64;
            let nf = w.frames.len() as u64;
            Some(match r.weighted(&[14, if bursty { 3 } else { 0 }, adv, reset, 3, if na > 0 { deliver_keys } else { 0 }, if nf > 0 { 40 } else { 0 }, 3]) {
                0 => json!({"op": "Encrypt", "s": s, "len": *r.pick(&[0u64, 1, 16, 20, 64, 200])}),
                1 => json!({"op": "Burst", "s": s, "n": *r.pick(&[5u64, 280, 298, 299, 300, 301, 310])}),
                2 => json!({"op": "Advance", "s": s, "times": if jump { *r.pick(&[1u64, 2, 4, 5, 6, 7, 250, 255, 256, 257]) } else { r.range(1, 3) }}),
                3 => {
                    if eager && r.chance(4, 5) {
                        x.push_back(json!({"op": "Announce", "s": s}));
                        for q in 1..=nodes as u64 {
                            x.push_back(json!({"op": "AddKey", "r": q, "x": s, "a": na + 1}));
                        }
                    }
                    json!({"op": "ResetKey", "s": s})
                }
                4 => json!({"op": "Announce", "s": s}),
                5 => {
                    let a = if r.chance(2, 3) { na - r.below(na.min(3)) } else { r.range(1, na) };
                    let owner = w.anns[a as usize - 1].0 as u64;
                    let x = if alias && r.chance(1, 3) { r.range(1, nodes as u64) } else { owner };
                    json!({"op": "AddKey", "r": r.range(1, nodes as u64), "x": x, "a": a})
                }
                6 => {
                    let f = if r.chance(1, 2) { nf - r.below(nf.min(4)) } else { r.range(1, nf) };
                    let owner = w.frames[f as usize - 1].s as u64;
                    let alter = if r.chance(alter_rate, 10) { *r.pick(&["data", "trunc", "extend", "mac", "ctr", "fc", "sender"]) } else { "none" };
                    let rcv = r.range(1, nodes as u64);
                    let xx = if alter == "sender" { r.range(1, nodes as u64) } else { owner };
                    if alter != "none" && r.chance(1, 2) {
                        // the genuine frame right after the forged one
                        x.push_back(json!({"op": "Decrypt", "r": rcv, "x": owner, "f": f, "alter": "none", "pos": 0}));
                    }
                    json!({"op": "Decrypt", "r": rcv, "x": xx, "f": f, "alter": alter, "pos": r.below(1 << 16)})
                }
                _ => json!({"op": "Report", "r": r.range(1, nodes as u64)}),
            })
        });
    }
    t.flush();
    println!("{{\"episodes\":{},\"events\":{}}}", t.episodes, t.events);
}
