ID="A01-stop-kick-first"; PROP="A01"
NEEDS="a particular interleaving: the actor handles the wake-up message between the two statements of stop()"
BREAKS="The wake-up message is sent before the stop flag is set: an actor that handles it in between goes back to sleep for good, and a joining stop never returns."
EDITS=[("src/rust/src/common/actor.rs","""        stopped.store(true, atomic::Ordering::SeqCst);
        // Sending an empty message kicks the message loop if it's stuck.
        let _ = self.sender.send(Task::immediate(Box::new(|_state| {})));
""","""        // Sending an empty message kicks the message loop if it's stuck.
        let _ = self.sender.send(Task::immediate(Box::new(|_state| {})));
        stopped.store(true, atomic::Ordering::SeqCst);
""")]
MAIN='''use ringrtc::common::actor::{Actor, Stopper};
use std::{sync::mpsc, thread, time::Duration};
fn main() {
    let (tx, rx) = mpsc::channel();
    for _ in 0..8 {
        let tx = tx.clone();
        thread::spawn(move || {
            for i in 0..3000u32 {
                let s = Stopper::new();
                let a = Actor::<u32>::start("a", s.clone(), |_| Ok(0)).unwrap();
                let (t, r) = mpsc::channel();
                a.send(move |_| { let _ = t.send(()); });
                r.recv().unwrap();
                if i % 2 == 0 { thread::sleep(Duration::from_micros(50)); }
                s.stop_all_and_join();
                tx.send(()).unwrap();
            }
        });
    }
    for _ in 0..24000 {
        if rx.recv_timeout(Duration::from_secs(15)).is_err() {
            eprintln!("a joining stop does not return");
            std::process::exit(1);
        }
    }
}
'''
