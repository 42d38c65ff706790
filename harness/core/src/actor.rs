//! Drives common::actor with several real threads and records calls, returns, task starts and ends.
use ringrtc::common::actor::{Actor, Stopper};
use std::{
    sync::{Arc, Condvar, Mutex, atomic::{AtomicU64, Ordering}},
    time::{Duration, Instant},
};
use vpcommon::*;

// Schedules: with --prio 1 everything runs on one processor, and a thread that is "slow" runs only when nobody
// else wants to: whoever it wakes goes first, in the middle of the call that did the waking.
mod sched {
    use std::ffi::c_int;
    unsafe extern "C" {
        fn sched_setaffinity(pid: c_int, len: usize, mask: *const u64) -> c_int;
        fn sched_getaffinity(pid: c_int, len: usize, mask: *mut u64) -> c_int;
        fn sched_setscheduler(pid: c_int, policy: c_int, param: *const c_int) -> c_int;
    }
    pub fn one_cpu() {
        let mut m = [0u64; 16];
        unsafe {
            if sched_getaffinity(0, 128, m.as_mut_ptr()) < 0 { return; }
            for i in 0..16 {
                if m[i] != 0 {
                    let bit = m[i] & m[i].wrapping_neg();
                    m = [0; 16];
                    m[i] = bit;
                    break;
                }
            }
            sched_setaffinity(0, 128, m.as_ptr());
        }
    }
    pub fn slow(on: bool) {
        let p: c_int = 0;
        unsafe { sched_setscheduler(0, if on { 5 } else { 0 }, &p) };
    }
}

struct Shared {
    prio: bool,
    log: Mutex<Vec<Value>>,
    t0: Instant,
    next: AtomicU64,
    open: (Mutex<bool>, Condvar),
    stopper: Stopper,
    actors: Mutex<Vec<(u64, Option<Actor<State>>)>>,
    done: Mutex<(Vec<(u64, u64)>, Vec<u64>)>, // (id, actor) sent; done
}

struct State(u64, Arc<Shared>);
impl Drop for State {
    fn drop(&mut self) {
        self.1.ev(json!({"ev": "Gone", "a": self.0}));
    }
}

impl Shared {
    fn ev(&self, mut v: Value) {
        let mut l = self.log.lock().unwrap();
        v["t"] = json!(self.t0.elapsed().as_micros() as u64);
        l.push(v);
    }
    fn ids(&self) -> Vec<u64> {
        self.actors.lock().unwrap().iter().map(|x| x.0).collect()
    }
}

fn new_actor(sh: &Arc<Shared>, fail: bool) {
    let a = sh.actors.lock().unwrap().len() as u64 + 1;
    sh.ev(json!({"ev": "New", "a": a, "fail": fail}));
    let sh2 = sh.clone();
    let r = Actor::start(format!("vp{a}"), sh.stopper.clone(), move |_self| {
        if fail { Err(anyhow::anyhow!("no state")) } else { Ok(State(a, sh2)) }
    });
    sh.ev(json!({"ev": "StartRes", "ok": r.is_ok(), "a": a}));
    sh.actors.lock().unwrap().push((a, r.ok()));
}

fn run(sh: &Arc<Shared>, ops: &[Value]) {
    for o in ops {
        match o["op"].as_str().unwrap() {
            "send" => {
                let a = o["a"].as_u64().unwrap();
                let d = o["d"].as_i64().unwrap();
                let Some(actor) = sh.actors.lock().unwrap()[a as usize - 1].1.clone() else { continue };
                let id = sh.next.fetch_add(1, Ordering::SeqCst);
                let body: Vec<Value> = o["body"].as_array().unwrap().clone();
                let sh2 = sh.clone();
                let f = move |st: &mut State| {
                    sh2.ev(json!({"ev": "Start", "id": id}));
                    assert_eq!(st.0, a);
                    run(&sh2, &body);
                    sh2.ev(json!({"ev": "End", "id": id}));
                    sh2.done.lock().unwrap().1.push(id);
                };
                sh.done.lock().unwrap().0.push((id, a));
                sh.ev(json!({"ev": "SendCall", "id": id, "a": a, "d": d}));
                if d < 0 { actor.send(f) } else { actor.send_delayed(Duration::from_micros(d as u64), f) }
                sh.ev(json!({"ev": "SendRet", "id": id}));
            }
            "sleep" => std::thread::sleep(Duration::from_micros(o["us"].as_u64().unwrap())),
            "gate" => {
                let mut g = sh.open.0.lock().unwrap();
                while !*g {
                    g = sh.open.1.wait(g).unwrap();
                }
            }
            "open" => {
                *sh.open.0.lock().unwrap() = true;
                sh.open.1.notify_all();
            }
            "new" => new_actor(sh, false),
            "stop" => {
                let ids = sh.ids();
                sh.ev(json!({"ev": "StopCall", "as": ids}));
                if sh.prio { sched::slow(true) }
                let _ = sh.stopper.stop_all_without_joining();
                if sh.prio { sched::slow(false) }
                sh.ev(json!({"ev": "StopRet", "as": ids}));
            }
            "join" => {
                let ids = sh.ids();
                sh.ev(json!({"ev": "StopCall", "as": ids}));
                if sh.prio { sched::slow(true) }
                sh.stopper.stop_all_and_join();
                if sh.prio { sched::slow(false) }
                sh.ev(json!({"ev": "JoinRet", "as": ids}));
            }
            x => panic!("{x}"),
        }
    }
}

fn episode(threads: Vec<Vec<Value>>, actors: u64, failing: u64, prio: bool) -> Vec<Value> {
    let sh = Arc::new(Shared {
        prio,
        log: Mutex::new(vec![json!({"ev": "Reset"})]),
        t0: Instant::now(),
        next: AtomicU64::new(1),
        open: (Mutex::new(false), Condvar::new()),
        stopper: Stopper::new(),
        actors: Mutex::new(vec![]),
        done: Mutex::new((vec![], vec![])),
    });
    for i in 1..=actors {
        new_actor(&sh, i == failing);
    }
    let has0 = sh.stopper.has_been_stopped();
    sh.ev(json!({"ev": "Has", "stopped": has0}));
    let hs: Vec<_> = threads
        .into_iter()
        .map(|ops| {
            let sh = sh.clone();
            std::thread::spawn(move || {
                if prio && ops.len() % 2 == 1 { sched::slow(true) }
                run(&sh, &ops)
            })
        })
        .collect();
    let mut died = false;
    for h in hs {
        died |= h.join().is_err();
    }
    if died {
        sh.ev(json!({"ev": "Panic", "obs": {"panic": last_panic()}}));
    }
    // wait until nothing is left (or nothing more can happen)
    let from = Instant::now();
    while from.elapsed() < Duration::from_millis(if sh.stopper.has_been_stopped() { 6 } else { 8000 }) {
        {
            let g = sh.done.lock().unwrap();
            if g.0.iter().filter(|(_, a)| *a != failing).count() == g.1.len() {
                break;
            }
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    sh.ev(json!({"ev": "Quiet"}));
    let was = sh.stopper.has_been_stopped();
    sh.ev(json!({"ev": "Has", "stopped": was}));
    let ids = sh.ids();
    sh.ev(json!({"ev": "StopCall", "as": ids}));
    if prio { sched::slow(true) }
    sh.stopper.stop_all_and_join();
    if prio { sched::slow(false) }
    sh.ev(json!({"ev": "JoinRet", "as": ids}));
    // asking again, and sending to what is over, is harmless
    let again = catch(|| {
        sh.stopper.stop_all_and_join();
        let tail = json!({"op": "send", "a": 1, "d": -1, "body": []});
        run(&sh, &[tail.clone(), tail]);
    });
    if let Err(p) = again {
        sh.ev(json!({"ev": "Panic", "obs": {"panic": p}}));
    }
    std::thread::sleep(Duration::from_millis(1));
    let l = sh.log.lock().unwrap().clone();
    // break the reference cycles
    sh.actors.lock().unwrap().clear();
    l
}

fn body(r: &mut Rng, depth: u64, actors: u64, stops: bool) -> Vec<Value> {
    let mut v = vec![];
    if depth == 0 { return v; }
    for _ in 0..r.below(3) {
        v.push(op(r, depth - 1, actors, stops));
    }
    v
}
fn op(r: &mut Rng, depth: u64, actors: u64, stops: bool) -> Value {
    match r.weighted(&[40, 30, 25, if stops { 3 } else { 0 }]) {
        0 => json!({"op": "send", "a": r.range(1, actors), "d": -1, "body": body(r, depth, actors, stops)}),
        1 => json!({"op": "send", "a": r.range(1, actors), "d": r.pick(&[0i64, 100, 400, 400, 1500, 3000]), "body": body(r, depth, actors, stops)}),
        2 => json!({"op": "sleep", "us": r.pick(&[0u64, 1, 20, 150, 600])}),
        _ => json!({"op": "stop"}),
    }
}

pub fn main(args: &Args) {
    let mut jobs: Vec<(Vec<Vec<Value>>, u64, u64)> = vec![];
    for s in args.scripts() {
        jobs.push((vec![s[1..].to_vec()], s[0]["actors"].as_u64().unwrap(), 0));
    }
    let mut r = Rng::new(args.num("seed", 1));
    for _ in 0..args.num("n", 0) {
        let actors = r.range(1, 2);
        let stops = r.chance(1, 2);
        let failing = if r.chance(1, 20) { r.range(1, actors) } else { 0 };
        let nth = r.range(1, 3);
        let mut threads = vec![];
        for _ in 0..nth {
            let n = r.range(1, 8);
            let mut ops: Vec<Value> = (0..n).map(|_| op(&mut r, 2, actors, false)).collect();
            if stops && r.chance(1, 2) {
                let at = r.below(ops.len() as u64 + 1) as usize;
                let k = if r.chance(1, 2) { "join" } else { "stop" };
                ops.insert(at, json!({"op": k}));
            }
            threads.push(ops);
        }
        jobs.push((threads, actors, failing));
    }
    let prio = args.num("prio", 0) == 1;
    if prio { sched::one_cpu() }
    let par = if prio { 1 } else { args.num("par", 6) };
    let out = Mutex::new(args.out());
    let jobs = Mutex::new(jobs.into_iter());
    std::thread::scope(|s| {
        for _ in 0..par {
            s.spawn(|| {
                loop {
                    let j = jobs.lock().unwrap().next();
                    let Some((t, a, f)) = j else { break };
                    let l = episode(t, a, f, prio);
                    let mut o = out.lock().unwrap();
                    for e in l {
                        o.ev(e);
                    }
                }
            });
        }
    });
}
