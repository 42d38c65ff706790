//! lite/http.rs DelegatingClient: the application side and the handlers, from several threads.
use std::{
    collections::HashMap,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU64, Ordering::SeqCst},
    },
    thread,
};

use ringrtc::lite::http::{self, Client, Delegate, DelegatingClient, Method, Request, Response};
use vpcommon::*;

#[derive(Default)]
struct Log(Mutex<Vec<Value>>);
impl Log {
    fn ev(&self, v: Value) {
        self.0.lock().unwrap().push(v);
    }
}

fn request(q: u64) -> Request {
    let m = [Method::Get, Method::Put, Method::Post, Method::Delete];
    let mut headers = HashMap::new();
    headers.insert("q".to_string(), q.to_string());
    Request {
        method: m[(q % 4) as usize],
        url: format!("https://example/{q}"),
        headers,
        body: (q % 3 != 0).then(|| q.to_be_bytes().to_vec()),
    }
}

struct App {
    log: Arc<Log>,
    ids: Arc<Mutex<Vec<u32>>>,
}
impl Delegate for App {
    fn send_request(&self, request_id: u32, r: Request) {
        let q: u64 = r.url.rsplit('/').next().unwrap().parse().unwrap();
        let want = request(q);
        let intact = r.method == want.method && r.url == want.url && r.headers == want.headers && r.body == want.body;
        self.log.ev(json!({"ev": "Sent", "q": q, "id": request_id as i64 % 2_000_000_000, "intact": intact}));
        self.ids.lock().unwrap().push(request_id);
    }
}

#[derive(Clone)]
struct World {
    log: Arc<Log>,
    ids: Arc<Mutex<Vec<u32>>>,
    client: DelegatingClient,
    q: Arc<AtomicU64>,
    rep: Arc<AtomicU64>,
}

impl World {
    fn new() -> Self {
        let log = Arc::new(Log::default());
        let ids = Arc::new(Mutex::new(vec![]));
        let client = DelegatingClient::new(App { log: log.clone(), ids: ids.clone() });
        World { log, ids, client, q: Arc::default(), rep: Arc::default() }
    }

    /// chain: how many further requests the handler itself makes, one from another
    fn send(&self, chain: u64) {
        let q = self.q.fetch_add(1, SeqCst) + 1;
        let w = self.clone();
        self.client.send_request(
            request(q),
            Box::new(move |r| {
                let what = match &r {
                    None => json!([]),
                    Some(Response { status, body }) => json!([status.code, hex(body)]),
                };
                w.log.ev(json!({"ev": "Handle", "q": q, "what": what}));
                if chain > 0 {
                    w.send(chain - 1);
                }
            }),
        );
    }

    fn report(&self, id: u32, fail: bool) {
        let rep = self.rep.fetch_add(1, SeqCst) + 1;
        let response = (!fail).then(|| Response {
            status: http::ResponseStatus::from([200u16, 404, 500, 99][(rep % 4) as usize]),
            body: rep.to_be_bytes()[6..].to_vec(),
        });
        let what = match &response {
            None => json!([]),
            Some(r) => json!([r.status.code, hex(&r.body)]),
        };
        self.log.ev(json!({"ev": "Report", "rep": rep, "id": id as i64 % 2_000_000_000, "what": what}));
        self.client.clone().received_response(id, response);
        self.log.ev(json!({"ev": "Done", "rep": rep}));
    }
    fn id(&self, k: usize) -> Option<u32> {
        self.ids.lock().unwrap().get(k).copied()
    }
    /// answers what is left and closes the episode
    fn end(&self) {
        let mut k = 0;
        while let Some(id) = self.id(k) {
            self.report(id, k % 2 == 0);
            k += 1;
        }
        self.log.ev(json!({"ev": "End"}));
    }
}

fn episode(t: &mut Tracer, f: impl FnOnce(&World)) {
    t.ev(json!({"ev": "Reset"}));
    let w = World::new();
    let r = catch(|| f(&w));
    for e in std::mem::take(&mut *w.log.0.lock().unwrap_or_else(|e| e.into_inner())) {
        t.ev(e);
    }
    if let Err(m) = r {
        t.ev(json!({"ev": "Panic", "obs": {"panic": m}}));
    }
    t.flush();
}

pub fn main(args: &Args) {
    let mut t = args.out();
    for s in args.scripts() {
        episode(&mut t, |w| {
            for i in &s {
                match i["op"].as_str().unwrap() {
                    "send" => w.send(0),
                    _ => {
                        let k = i["id"].as_u64().unwrap();
                        w.report(w.id(k as usize).unwrap_or(k as u32), i["what"] == "fail")
                    }
                }
            }
            w.end();
        });
    }
    let (seed, n) = (args.num("seed", 1), args.num("n", 0));
    for ep in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + ep);
        let (senders, reporters) = (r.range(1, 3), r.range(1, 3));
        let (sends, reports) = (r.range(1, 12), r.range(1, 20));
        episode(&mut t, |w| {
            thread::scope(|s| {
                let mut hs = vec![];
                for _ in 0..senders {
                    let (w, mut r) = (w.clone(), Rng::new(r.next()));
                    hs.push(s.spawn(move || {
                        for _ in 0..sends {
                            w.send(if r.chance(1, 5) { r.range(1, 2) } else { 0 });
                        }
                    }));
                }
                for _ in 0..reporters {
                    let (w, mut r) = (w.clone(), Rng::new(r.next()));
                    hs.push(s.spawn(move || {
                        for _ in 0..reports {
                            let n = w.ids.lock().unwrap().len() as u64;
                            if r.chance(1, 12) {
                                w.report(1_000_000_000 + r.below(5) as u32, r.chance(1, 2));
                            } else if n > 0 {
                                let k = if r.chance(2, 3) { n - 1 - r.below(n.min(3)) } else { r.below(n) };
                                if let Some(id) = w.id(k as usize) {
                                    w.report(id, r.chance(1, 3));
                                }
                            } else {
                                thread::yield_now();
                            }
                        }
                    }));
                }
                for h in hs {
                    h.join().unwrap();
                }
            });
            w.end();
        });
    }
    println!("{{\"episodes\":{},\"events\":{}}}", t.episodes, t.events);
}
