//! core/call_mutex.rs, core/call_rwlock.rs and core/util.rs EventStream, from several threads.
use std::{
    sync::{
        Arc, Mutex,
        atomic::{AtomicI64, Ordering::SeqCst},
        mpsc,
    },
    thread,
    time::Duration,
};

use ringrtc::core::{call_mutex::CallMutex, call_rwlock::CallRwLock, util::EventStream};
use vpcommon::*;

#[derive(Default, Clone)]
struct Log(Arc<Mutex<Vec<Value>>>);
impl Log {
    fn ev(&self, v: Value) {
        self.0.lock().unwrap().push(v);
    }
}

type Pair = (i64, i64);
enum Lock {
    M(CallMutex<Pair>),
    R(CallRwLock<Pair>),
}

const HANG: Duration = Duration::from_secs(20);

struct Shared {
    lock: Lock,
    label: String,
    log: Log,
    fresh: AtomicI64,
}

impl Shared {
    fn new(rw: bool, label: String) -> Arc<Self> {
        let lock =
            if rw { Lock::R(CallRwLock::new((0, 0), &label)) } else { Lock::M(CallMutex::new((0, 0), &label)) };
        Arc::new(Shared { lock, label, log: Log::default(), fresh: AtomicI64::new(0) })
    }

    fn next(&self) -> i64 {
        self.fresh.fetch_add(1, SeqCst) + 1
    }

    /// One access: asks, and runs `body` inside if let in.  `body` gets a function that writes the value.
    fn access(&self, t: u64, op: &str, body: &mut dyn FnMut(Option<&mut Pair>)) {
        self.log.ev(json!({"ev": "Ask", "t": t, "op": op}));
        let got = |v: &Pair, was: Value| {
            self.log.ev(json!({"ev": "Got", "t": t, "v": [v.0, v.1], "was": was}));
        };
        let refused = |e: anyhow::Error| {
            let named = format!("{e} {e:?}").contains(&self.label);
            self.log.ev(json!({"ev": "Refused", "t": t, "named": named}));
        };
        let r = catch(|| match (&self.lock, op) {
            (Lock::M(m), "lock") => match m.lock() {
                Ok(mut g) => {
                    got(&g, json!([]));
                    body(Some(&mut g));
                    self.log.ev(json!({"ev": "Leave", "t": t}));
                }
                Err(e) => refused(e),
            },
            (Lock::M(m), "reset") => {
                let mut was = json!([]);
                let mut g = m.lock_or_reset(|label| {
                    if label != self.label {
                        self.log.ev(json!({"ev": "Refused", "t": t, "named": false}));
                    }
                    let n = self.next();
                    was = json!([n, n]);
                    (n, n)
                });
                got(&g, was);
                body(Some(&mut g));
                self.log.ev(json!({"ev": "Leave", "t": t}));
            }
            (Lock::R(l), "read") => match l.read() {
                Ok(g) => {
                    got(&g, json!([]));
                    body(None);
                    self.log.ev(json!({"ev": "Leave", "t": t}));
                }
                Err(e) => refused(e),
            },
            (Lock::R(l), "write") => match l.write() {
                Ok(mut g) => {
                    got(&g, json!([]));
                    body(Some(&mut g));
                    self.log.ev(json!({"ev": "Leave", "t": t}));
                }
                Err(e) => refused(e),
            },
            o => unreachable!("{}", o.1),
        });
        // a panic of ours inside the lock has been logged before it was raised
        if let Err(m) = r
            && !m.contains("vp: crash")
        {
            self.log.ev(json!({"ev": "Panic", "obs": {"panic": m}}));
        }
    }

    fn write(&self, t: u64, v: &mut Pair, half: bool) {
        let n = self.next();
        v.0 = n;
        if !half {
            v.1 = n;
        }
        self.log.ev(json!({"ev": "Write", "t": t, "v": [v.0, v.1]}));
    }

    fn crash(&self, t: u64) -> ! {
        self.log.ev(json!({"ev": "Crash", "t": t}));
        panic!("vp: crash")
    }
}

/// A thread that does what it is told, step by step.
fn puppet(s: Arc<Shared>, t: u64, rx: mpsc::Receiver<String>, ack: mpsc::Sender<()>) {
    while let Ok(cmd) = rx.recv() {
        if !["lock", "read", "write", "reset"].contains(&cmd.as_str()) {
            // told to do something inside although not let in: nothing to do
            let _ = ack.send(());
            continue;
        }
        s.access(t, &cmd, &mut |mut v| {
            let _ = ack.send(());
            while let Ok(cmd) = rx.recv() {
                match (cmd.as_str(), v.as_deref_mut()) {
                    ("half", Some(v)) => s.write(t, v, true),
                    ("set", Some(v)) => s.write(t, v, false),
                    ("panic", _) => s.crash(t),
                    _ => return,
                }
                let _ = ack.send(());
            }
        });
        let _ = ack.send(());
    }
}

pub fn locks(args: &Args) {
    let mut t = args.out();
    let rw = args.get("kind") == Some("rw");
    for (ep, script) in args.scripts().into_iter().enumerate() {
        t.ev(json!({"ev": "Reset"}));
        let s = Shared::new(rw, format!("lock{ep}"));
        let mut ps = vec![];
        for p in 1..=2u64 {
            let (tx, rx) = mpsc::channel();
            let (atx, arx) = mpsc::channel();
            let s = s.clone();
            let h = thread::spawn(move || puppet(s, p, rx, atx));
            ps.push((Some(tx), arx, h));
        }
        let mut hung = false;
        for i in &script {
            let p = &ps[i["t"].as_u64().unwrap() as usize - 1];
            p.0.as_ref().unwrap().send(i["op"].as_str().unwrap().to_string()).unwrap();
            if p.1.recv_timeout(HANG).is_err() {
                s.log.ev(json!({"ev": "Panic", "obs": {"panic": "Hang"}}));
                hung = true;
                break;
            }
        }
        for mut p in ps {
            drop(p.0.take());
            if !hung {
                p.2.join().unwrap();
            }
        }
        for e in std::mem::take(&mut *s.log.0.lock().unwrap()) {
            t.ev(e);
        }
        if hung {
            break;
        }
    }
    let (seed, n) = (args.num("seed", 1), args.num("n", 0));
    for ep in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + ep);
        t.ev(json!({"ev": "Reset"}));
        let s = Shared::new(rw, format!("lock{ep}x"));
        let mut hs = vec![];
        let crashy = r.chance(2, 3);
        for th in 1..=r.range(2, 4) {
            let (s, mut r) = (s.clone(), Rng::new(r.next()));
            hs.push(thread::spawn(move || {
                for _ in 0..r.range(3, 10) {
                    let op = match (rw, r.below(6)) {
                        (true, 0..=2) => "read",
                        (true, _) => "write",
                        (false, 0..=4) => "lock",
                        _ => "reset",
                    };
                    let mut q = Rng::new(r.next());
                    s.access(th, op, &mut |mut v| {
                        for _ in 0..q.below(3) {
                            if let Some(v) = v.as_deref_mut() {
                                s.write(th, v, false);
                            }
                            if q.chance(1, 3) {
                                thread::yield_now();
                            }
                        }
                        if crashy && q.chance(1, 8) {
                            if let Some(v) = v {
                                s.write(th, v, true);
                            }
                            s.crash(th);
                        }
                    });
                }
            }));
        }
        for h in hs {
            h.join().unwrap();
        }
        for e in std::mem::take(&mut *s.log.0.lock().unwrap()) {
            t.ev(e);
        }
    }
    println!("{{\"episodes\":{},\"events\":{}}}", t.episodes, t.events);
}

struct Stream {
    log: Log,
    items: AtomicI64,
}

impl Stream {
    fn push(&self, tx: &mpsc::Sender<i64>) {
        let x = self.items.fetch_add(1, SeqCst) + 1;
        self.log.ev(json!({"ev": "SendStart", "x": x}));
        let ok = tx.send(x).is_ok();
        self.log.ev(json!({"ev": "SendDone", "x": x, "ok": ok}));
    }
    fn recv(&self, s: &mut EventStream<i64>) -> bool {
        match s.recv() {
            Some(x) => {
                self.log.ev(json!({"ev": "Recv", "x": x}));
                true
            }
            None => {
                self.log.ev(json!({"ev": "End"}));
                false
            }
        }
    }
    fn close(&self, s: &mut EventStream<i64>) {
        self.log.ev(json!({"ev": "CloseStart"}));
        s.close();
        self.log.ev(json!({"ev": "CloseDone"}));
    }
}

pub fn events(args: &Args) {
    let mut t = args.out();
    let mut emit = |w: &Stream, r: Result<(), String>, t: &mut Tracer| {
        for e in std::mem::take(&mut *w.log.0.lock().unwrap()) {
            t.ev(e);
        }
        if let Err(m) = r {
            t.ev(json!({"ev": "Panic", "obs": {"panic": m}}));
        }
        t.flush();
    };
    for script in args.scripts() {
        t.ev(json!({"ev": "Reset"}));
        let w = Stream { log: Log::default(), items: AtomicI64::new(0) };
        let r = catch(|| {
            let (tx, rx) = mpsc::channel::<i64>();
            let mut first = Some(tx);
            let mut txs: std::collections::HashMap<u64, mpsc::Sender<i64>> = Default::default();
            let mut s = EventStream::from(rx);
            for i in &script {
                let p = i["p"].as_u64().unwrap_or(0);
                match i["op"].as_str().unwrap() {
                    "join" => {
                        w.log.ev(json!({"ev": "Join", "p": p}));
                        txs.insert(p, first.as_ref().unwrap().clone());
                    }
                    "quit" => {
                        w.log.ev(json!({"ev": "Quit", "p": p}));
                        txs.remove(&p);
                        if txs.is_empty() {
                            first = None;
                        }
                    }
                    "push" => w.push(&txs[&p]),
                    "recv" => {
                        if txs.is_empty() {
                            first = None;
                        }
                        w.recv(&mut s);
                    }
                    _ => w.close(&mut s),
                }
            }
            first = None;
            for p in txs.keys() {
                w.log.ev(json!({"ev": "Quit", "p": p}));
            }
            drop((first, txs));
            while w.recv(&mut s) {}
        });
        emit(&w, r, &mut t);
    }
    let (seed, n) = (args.num("seed", 1), args.num("n", 0));
    for ep in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003) + ep);
        t.ev(json!({"ev": "Reset"}));
        let w = Stream { log: Log::default(), items: AtomicI64::new(0) };
        let np = r.range(1, 3);
        let close_after = r.chance(3, 4).then(|| r.below(12));
        let res = catch(|| {
            let (tx, rx) = mpsc::channel::<i64>();
            let mut s = EventStream::from(rx);
            for p in 1..=np {
                w.log.ev(json!({"ev": "Join", "p": p}));
            }
            thread::scope(|sc| {
                for p in 1..=np {
                    let (tx, mut r, w) = (tx.clone(), Rng::new(r.next()), &w);
                    sc.spawn(move || {
                        for _ in 0..r.range(1, 10) {
                            w.push(&tx);
                            if r.chance(1, 3) {
                                thread::yield_now();
                            }
                        }
                        w.log.ev(json!({"ev": "Quit", "p": p}));
                    });
                }
                drop(tx);
                let mut k = 0;
                loop {
                    if close_after == Some(k) {
                        w.close(&mut s);
                    }
                    k += 1;
                    if !w.recv(&mut s) {
                        break;
                    }
                }
                // the end stays the end
                w.recv(&mut s);
            });
        });
        emit(&w, res, &mut t);
    }
    println!("{{\"episodes\":{},\"events\":{}}}", t.episodes, t.events);
}
