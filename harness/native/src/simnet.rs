//! simnet/router.rs: small networks in real time; common/units.rs; webrtc/network.rs addresses.
use std::{
    net::{IpAddr, SocketAddr},
    sync::{
        Arc, Mutex,
        atomic::{AtomicUsize, Ordering::SeqCst},
    },
    thread,
    time::{Duration, Instant},
};

use ringrtc::{
    common::{
        actor::Stopper,
        units::{DataRate, DataSize},
    },
    simnet::router::{LinkConfig, Packet, Router},
    webrtc::network::RffiIpPort,
};
use vpcommon::*;

fn cfg(v: &Value) -> LinkConfig {
    let n = |k: &str| v[k].as_u64().unwrap();
    LinkConfig {
        delay_min: Duration::from_millis(n("dmin")),
        delay_max: Duration::from_millis(n("dmax")),
        loss_probability: n("loss") as f64 / 2.0,
        repeated_loss_probability: n("rep") as f64 / 2.0,
        rate: DataRate::from_kbps(n("kbps")),
        queue_size: DataSize::from_bytes(n("queue")),
    }
}

fn ip(h: u64, v6: bool) -> IpAddr {
    if v6 { format!("fd00::{h}").parse().unwrap() } else { format!("10.0.0.{h}").parse().unwrap() }
}

fn run(hosts: &[Value], packets: &[Value], must: usize, settle: u64, one_by_one: bool) -> Value {
    let stopper = Stopper::new();
    let router = Router::start(&stopper).unwrap();
    let got = Arc::new(Mutex::new(vec![]));
    let t0 = Instant::now();
    let sent: Arc<Mutex<Vec<(Instant, SocketAddr, SocketAddr, Vec<u8>)>>> = Arc::default();
    let host_ip = |h: u64| hosts.get(h.wrapping_sub(1) as usize).map_or(ip(99, h % 2 == 0), |v| ip(h, v["v6"] == true));
    for (i, h) in hosts.iter().enumerate() {
        let (got, sent, n) = (got.clone(), sent.clone(), i + 1);
        router
            .add_interface(
                host_ip(n as u64),
                cfg(&h["send"]),
                cfg(&h["recv"]),
                Box::new(move |p: Packet| {
                    let now = Instant::now();
                    let sent = sent.lock().unwrap();
                    // packets are told apart by their ports
                    let k = p.source.port() as usize;
                    let (at, intact) = match sent.get(k.wrapping_sub(1)) {
                        Some((t, s, d, b)) => ((now - *t).as_micros() as u64, *s == p.source && *d == p.dest && *b == p.data),
                        None => (0, false),
                    };
                    got.lock().unwrap().push((now, json!({"p": k, "host": n, "intact": intact, "at": at, "t": (now - t0).as_micros() as u64})));
                }),
            )
            .unwrap();
    }
    for (i, p) in packets.iter().enumerate() {
        let n = |k: &str| p[k].as_u64().unwrap();
        let source = SocketAddr::new(host_ip(n("src")), i as u16 + 1);
        let dest = SocketAddr::new(host_ip(n("dst")), 1000 + n("dst") as u16);
        let data: Vec<u8> = (0..n("size")).map(|x| (x * 31 + i as u64 * 7) as u8).collect();
        sent.lock().unwrap().push((Instant::now(), source, dest, data.clone()));
        let before = got.lock().unwrap().len();
        router.send_packet(Packet { source, dest, data });
        let deadline = Instant::now() + Duration::from_secs(3);
        while one_by_one && got.lock().unwrap().len() == before && Instant::now() < deadline {
            thread::sleep(Duration::from_millis(1));
        }
    }
    let deadline = Instant::now() + Duration::from_secs(10);
    while got.lock().unwrap().len() < must && Instant::now() < deadline {
        thread::sleep(Duration::from_millis(20));
    }
    // anything else that may still be on its way
    thread::sleep(Duration::from_millis(settle));
    stopper.stop_all_and_join();
    let mut g = got.lock().unwrap().clone();
    g.sort_by_key(|x| x.0);
    json!(g.into_iter().map(|x| x.1).collect::<Vec<_>>())
}

pub fn main(args: &Args) {
    let mut tr = args.out();
    let mut r = Rng::new(args.num("seed", 1));
    let scripts = args.scripts();
    let results: Vec<Mutex<Value>> = scripts.iter().map(|_| Mutex::new(Value::Null)).collect();
    let next = AtomicUsize::new(0);
    let bursts: Vec<(u64, u64, u64)> = vec![(500, 100, 5), (400, 100, 6), (128, 100, 4), (300, 270, 4)];
    let burst_results: Mutex<Vec<Value>> = Mutex::default();
    let burst = |queue: u64, size: u64, n: u64| {
        let big = json!({"dmin": 1, "dmax": 2, "loss": 0, "rep": 0, "kbps": 100000, "queue": 1000000});
        // 0.25 s for each packet
        let slow = json!({"dmin": 1, "dmax": 2, "loss": 0, "rep": 0, "kbps": (size + 28) * 8 * 4 / 1000 + 1, "queue": queue});
        let hosts = [json!({"v6": false, "send": slow, "recv": big}), json!({"v6": false, "send": big, "recv": big})];
        let packets: Vec<Value> = (0..n).map(|_| json!({"src": 1, "dst": 2, "size": size})).collect();
        let fits = queue / (size + 28);
        let mut counts = vec![];
        for _ in 0..3 {
            let c = run(&hosts, &packets, fits as usize, 900, false).as_array().unwrap().len() as u64;
            counts.push(c);
            if c <= fits + 1 {
                break;
            }
        }
        burst_results.lock().unwrap().push(json!({"ev": "Burst", "hosts": hosts, "packets": packets, "obs": {"counts": counts}}));
    };
    // each packet is sent when the previous one has arrived, so that every queue is empty
    let calm = |queue: u64, size: u64, v6: bool| {
        let quick = json!({"dmin": 1, "dmax": 2, "loss": 0, "rep": 0, "kbps": 10000, "queue": queue});
        let hosts = [json!({"v6": v6, "send": quick, "recv": quick}), json!({"v6": v6, "send": quick, "recv": quick})];
        let packets: Vec<Value> = (0..12).map(|_| json!({"src": 1, "dst": 2, "size": size})).collect();
        let v = match catch(|| run(&hosts, &packets, 12, 10, true)) {
            Ok(got) => json!({"ev": "Calm", "hosts": hosts, "packets": packets, "obs": {"got": got}}),
            Err(p) => json!({"ev": "Panic", "obs": {"panic": p}}),
        };
        burst_results.lock().unwrap().push(v);
    };
    thread::scope(|s| {
        for (q, z, v6) in [(128, 100, false), (300, 100, true), (28, 0, false), (148, 100, true)] {
            s.spawn(move || calm(q, z, v6));
        }
        for (q, z, n) in &bursts {
            s.spawn(move || burst(*q, *z, *n));
        }
        for _ in 0..args.num("threads", 40) {
            s.spawn(|| {
                loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= scripts.len() {
                        return;
                    }
                    let sc = &scripts[k][0];
                    let a = |n: &str| sc[n].as_array().unwrap().clone();
                    let v = match catch(|| run(&a("hosts"), &a("packets"), sc["must"].as_u64().unwrap() as usize, 250, false)) {
                        Ok(got) => json!({"ev": "Net", "hosts": sc["hosts"], "packets": sc["packets"], "obs": {"got": got}}),
                        Err(p) => json!({"ev": "Panic", "obs": {"panic": p}}),
                    };
                    *results[k].lock().unwrap() = v;
                }
            });
        }
    });
    for v in results.into_iter().map(|m| m.into_inner().unwrap()).chain(burst_results.into_inner().unwrap()) {
        tr.ev(json!({"ev": "Reset"}));
        tr.ev(v);
    }
    for _ in 0..args.num("n", 200) {
        tr.ev(json!({"ev": "Reset"}));
        let (bytes, kbps) = (r.below(2000), r.range(1, 100_000));
        let o = catch(|| {
            let (s, q) = (DataSize::from_bytes(bytes), DataRate::from_kbps(kbps));
            json!({"micros": (s / q).as_micros() as u64, "bits": s.as_bits(), "bps": q.as_bps(), "kbps": DataRate::from_bps(kbps * 1000 + 999).as_kbps(),
                   "least": q.min_opt(Some(DataRate::from_kbps(bytes))).min_opt(None).as_kbps()})
        });
        match o {
            Ok(o) => tr.ev(json!({"ev": "Unit", "bytes": bytes, "kbps": kbps, "obs": o})),
            Err(p) => tr.ev(json!({"ev": "Panic", "obs": {"panic": p}})),
        }
        let port = *r.pick(&[0, 1, 255, 256, 65535, 4660]);
        let v6: bool = r.chance(2, 3);
        let octets: Vec<u8> = (0..if v6 { 16 } else { 4 }).map(|_| if r.chance(1, 3) { 0 } else { r.next() as u8 }).collect();
        let addr: IpAddr = if v6 { <[u8; 16]>::try_from(octets.as_slice()).unwrap().into() } else { <[u8; 4]>::try_from(octets.as_slice()).unwrap().into() };
        let back = RffiIpPort::from(SocketAddr::new(addr, port)).socket_addr();
        let back_ip = match back.ip() {
            IpAddr::V4(a) => a.octets().to_vec(),
            IpAddr::V6(a) => a.octets().to_vec(),
        };
        tr.ev(json!({"ev": "Addr", "ip": octets, "port": port, "obs": {"back": {"ip": back_ip, "port": back.port()}}}));
    }
}
