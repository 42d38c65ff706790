//! Drives two real MrpStream endpoints joined by a network that the script controls
//! (loss, duplication, reordering) and records every call with everything its caller sees.
use std::time::{Duration, Instant};

use mrp::{MrpHeader, MrpReceiveError, MrpSendError, MrpStream};
use vpcommon::*;

#[derive(Clone, Debug, PartialEq)]
struct Data(Vec<u32>);
impl Extend<Data> for Data {
    fn extend<T: IntoIterator<Item = Data>>(&mut self, iter: T) {
        for d in iter {
            self.0.extend(d.0);
        }
    }
}
#[derive(Clone, Debug)]
struct Pkt {
    h: MrpHeader,
    d: Vec<u32>,
}

struct World {
    base: Instant,
    now: u64,
    merge: bool,
    ep: [MrpStream<Pkt, Data>; 2],
    /// every packet ever transmitted by endpoint i
    sent: [Vec<Pkt>; 2],
    next_val: u32,
}

fn pj(p: &Pkt) -> Value {
    // absent header parts are written as -1
    json!([
        p.h.seqnum.map_or(-1, |x| x as i64),
        p.h.ack_num.map_or(-1, |x| x as i64),
        p.h.num_packets.map_or(-1, |x| x as i64),
        p.d
    ])
}

impl World {
    fn new(cap: u64, merge: bool) -> Self {
        let mk = || {
            if cap == 0 {
                MrpStream::default()
            } else {
                MrpStream::with_capacity_limit(cap as usize)
            }
        };
        World { base: Instant::now(), now: 0, merge, ep: [mk(), mk()], sent: [vec![], vec![]], next_val: 1 }
    }

    fn at(&self, t: u64) -> Instant {
        self.base + Duration::from_millis(t)
    }

    fn send_err(e: &MrpSendError) -> &'static str {
        match e {
            MrpSendError::SendWindowFull => "full",
            MrpSendError::InnerSendFailed(_) => "fail",
        }
    }

    fn status(&self, i: usize) -> (u64, u64, u64) {
        (self.ep[i].send_len() as u64, self.ep[i].receive_len() as u64, self.ep[i].ack_seqnum())
    }

    /// Runs one input, returns the event with what was observed.
    fn step(&mut self, inp: &Value) -> Value {
        let op = inp["op"].as_str().unwrap().to_string();
        let i = inp["e"].as_u64().unwrap_or(0) as usize;
        let mut ev = inp.clone();
        ev["ev"] = json!(op);
        let r = catch(|| match op.as_str() {
            "Send" => {
                let fail = inp["fail"].as_bool().unwrap();
                let d = vec![self.next_val];
                let due = self.at(self.now + inp["to"].as_u64().unwrap());
                let mut tx = vec![];
                let r = self.ep[i].try_send(|h| {
                    let p = Pkt { h, d: d.clone() };
                    tx.push(p.clone());
                    if fail { anyhow::bail!("down") }
                    Ok((p, due))
                });
                self.next_val += 1;
                let res = r.as_ref().err().map_or("ok", Self::send_err);
                let o = json!({"res": res, "tx": tx.iter().map(pj).collect::<Vec<_>>()});
                if !fail {
                    self.sent[i].extend(tx);
                }
                (json!({"d": d}), o)
            }
            "SendFrag" => {
                let n = inp["n"].as_u64().unwrap();
                let frags: Vec<Pkt> = (0..n)
                    .map(|k| Pkt { h: MrpHeader::default(), d: vec![self.next_val + k as u32] })
                    .collect();
                let ds: Vec<_> = frags.iter().map(|f| f.d.clone()).collect();
                self.next_val += n as u32;
                let due = self.at(self.now + inp["to"].as_u64().unwrap());
                let mut tx = vec![];
                let r = self.ep[i].try_send_fragmented(frags, |idx, h, mut f| {
                    f.h = h;
                    tx.push((idx, f.clone()));
                    (f, due)
                });
                let res = r.as_ref().err().map_or("ok", Self::send_err);
                let idx: Vec<_> = tx.iter().map(|t| t.0).collect();
                let o = json!({"res": res, "tx": tx.iter().map(|t| pj(&t.1)).collect::<Vec<_>>(), "idx": idx});
                self.sent[i].extend(tx.into_iter().map(|t| t.1));
                (json!({"d": ds}), o)
            }
            "Ack" => {
                let fail = inp["fail"].as_bool().unwrap();
                let mut tx = vec![];
                let r = self.ep[i].try_send_ack(|h| {
                    tx.push(Pkt { h, d: vec![] });
                    if fail { anyhow::bail!("down") }
                    Ok(())
                });
                let (res, ret) = match &r {
                    Ok(None) => ("none", -1),
                    Ok(Some(a)) => ("ok", *a as i64),
                    Err(e) => (Self::send_err(e), -1),
                };
                let o = json!({"res": res, "ret": ret, "tx": tx.iter().map(pj).collect::<Vec<_>>()});
                if !fail {
                    self.sent[i].extend(tx);
                }
                (json!({}), o)
            }
            "Resend" => {
                // failat: 0 = no failure, k = the k-th transmission fails
                let failat = inp["failat"].as_u64().unwrap() as usize;
                let now = self.at(self.now);
                let due = self.at(self.now + inp["to"].as_u64().unwrap());
                let mut tx = vec![];
                let r = self.ep[i].try_resend(now, |p| {
                    tx.push(p.clone());
                    if tx.len() == failat { anyhow::bail!("down") }
                    Ok(due)
                });
                let res = r.as_ref().err().map_or("ok", Self::send_err);
                let o = json!({"res": res, "tx": tx.iter().map(pj).collect::<Vec<_>>()});
                if res == "fail" {
                    tx.pop();
                }
                self.sent[i].extend(tx);
                (json!({}), o)
            }
            "Tick" => {
                self.now += inp["dt"].as_u64().unwrap();
                (json!({}), json!({"res": "ok"}))
            }
            // Deliver the k-th packet ever sent by the peer (again, late, or for the first time)
            "Deliver" | "Inject" => {
                let p = if op == "Deliver" {
                    let k = inp["k"].as_u64().unwrap() as usize;
                    match self.sent[1 - i].get(k.wrapping_sub(1)) {
                        Some(p) => p.clone(),
                        None => return (json!({"skip": true}), json!({})),
                    }
                } else {
                    let f = |k: &str| inp[k].as_i64().filter(|v| *v >= 0).map(|v| v as u64);
                    Pkt {
                        h: MrpHeader::new_with_length(f("seq"), f("ack"), f("np").map(|v| v as u32)),
                        d: vec![{ self.next_val += 1; self.next_val - 1 }],
                    }
                };
                let r = if self.merge {
                    self.ep[i].receive_and_merge(&p.h, Data(p.d.clone()))
                } else {
                    self.ep[i].receive(&p.h, Data(p.d.clone()))
                };
                let (res, out) = match r {
                    Ok(v) => ("ok".to_string(), v.into_iter().map(|d| d.0).collect::<Vec<_>>()),
                    Err(e) => (
                        match e {
                            MrpReceiveError::ReceiveWindowFull(s) => format!("full{s}"),
                            MrpReceiveError::PacketMergeConflict => "conflict".into(),
                            MrpReceiveError::InvalidNumPackets(n) => format!("badnum{n}"),
                            MrpReceiveError::InvalidMergeState => "mergestate".into(),
                        },
                        vec![],
                    ),
                };
                (json!({"p": pj(&p)}), json!({"res": res, "out": out}))
            }
            _ => panic!("unknown op {op}"),
        });
        match r {
            Ok((inputs, mut obs)) => {
                if let Value::Object(m) = inputs {
                    for (k, v) in m {
                        ev[k] = v;
                    }
                }
                let (s, r, a) = self.status(i);
                obs["slen"] = json!(s);
                obs["rlen"] = json!(r);
                obs["ackseq"] = json!(a);
                ev["obs"] = obs;
            }
            Err(m) => {
                ev["ev"] = json!("Panic");
                ev["obs"] = json!({"panic": m});
            }
        }
        ev
    }
}

fn run(t: &mut Tracer, cap: u64, merge: bool, mut next: impl FnMut(&World, usize) -> Option<Value>) {
    let mut w = World::new(cap, merge);
    t.ev(json!({"ev": "Reset", "cap": if cap == 0 { 1_000_000 } else { cap }, "merge": merge}));
    let mut n = 0;
    while let Some(inp) = next(&w, n) {
        n += 1;
        let ev = w.step(&inp);
        if ev["skip"] == true {
            continue;
        }
        let stop = ev["ev"] == "Panic";
        t.ev(ev);
        if stop {
            break;
        }
    }
}

fn main() {
    let args = Args::parse();
    quiet_panics();
    let mut t = args.out();
    for s in args.scripts() {
        let mut it = s.into_iter();
        let cfg = it.next().expect("config");
        run(&mut t, cfg["cap"].as_u64().unwrap(), cfg["merge"].as_bool().unwrap(), |_, _| it.next());
    }
    let (seed, n, len) = (args.num("seed", 1), args.num("n", 0), args.num("len", 60));
    for ep in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + ep);
        let cap = *r.pick(&[1, 2, 2, 3, 3, 4, 5, 8, 16, 0]);
        let merge = !r.chance(1, 4);
        let malformed = cap != 0 && r.chance(1, 4);
        let frag = merge && r.chance(3, 4);
        let fresh_bias = r.below(5);
        let failing = r.chance(1, 2);
        let both = r.chance(1, 2);
        run(&mut t, cap, merge, |w, k| {
            if k as u64 >= len {
                return None;
            }
            let e = if both { r.below(2) } else { u64::from(r.chance(1, 2)) } as usize;
            let fail = failing && r.chance(1, 6);
            let to = *r.pick(&[5u64, 10, 10, 20, 0]);
            let weights = [
                if both || e == 0 { 10 } else { 1 },
                if frag && (both || e == 0) { 6 } else { 0 },
                8,
                4,
                4,
                18,
                if malformed { 5 } else { 0 },
            ];
            Some(match r.weighted(&weights) {
                0 => json!({"op": "Send", "e": e, "fail": fail, "to": to}),
                1 => {
                    let lim = if cap == 0 { 4 } else { cap.min(6) };
                    json!({"op": "SendFrag", "e": e, "n": if r.chance(1, 12) { 0 } else { r.range(1, lim) }, "to": to})
                }
                2 => json!({"op": "Ack", "e": e, "fail": fail}),
                3 => json!({"op": "Resend", "e": e, "failat": if failing && r.chance(1, 4) { r.range(1, 3) } else { 0 }, "to": to}),
                4 => json!({"op": "Tick", "e": e, "dt": *r.pick(&[1u64, 5, 10, 20])}),
                5 => {
                    let m = w.sent[1 - e].len() as u64;
                    let k = if m > 0 && r.chance(fresh_bias, 6) { m - r.below(m.min(3)) } else { r.range(1, m.max(1)) };
                    json!({"op": "Deliver", "e": e, "k": k})
                }
                _ => {
                    let left = w.ep[e].ack_seqnum();
                    let seq: i64 = match r.below(8) {
                        0 => -1,
                        1 => 0,
                        _ => (left + r.below(cap + 3)).saturating_sub(1) as i64,
                    };
                    let ack: i64 = if r.chance(1, 3) {
                        let base = w.sent[e].len() as u64;
                        *r.pick(&[0i64, 1, 2, base as i64 + 1, base as i64 + 5, 2_000_000_000, r.clone().below(base + 2) as i64])
                    } else {
                        -1
                    };
                    let np: i64 = *r.pick(&[-1i64, 0, 1, 2, 3, cap as i64, cap as i64 + 1, 2_000_000_000]);
                    json!({"op": "Inject", "e": e, "seq": seq, "ack": ack, "np": if r.chance(1, 2) { -1 } else { np }})
                }
            })
        });
    }
    t.flush();
    println!("{{\"episodes\":{},\"events\":{}}}", t.episodes, t.events);
}
