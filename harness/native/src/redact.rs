//! Public log text: core/util.rs redact_string, webrtc/audio_device_module_utils.rs redact_*.
use ringrtc::{
    core::util::redact_string,
    webrtc::audio_device_module_utils::redact_for_logging,
};
use vpcommon::*;

fn redact(tr: &mut Tracer, lines: &Value, crlf: bool) {
    let text: Vec<String> = lines
        .as_array()
        .unwrap()
        .iter()
        .map(|l| l.as_array().unwrap().iter().map(|i| i["t"].as_str().unwrap()).collect())
        .collect();
    let text = text.join(if crlf { "\r\n" } else { "\n" });
    match catch(|| redact_string(text.as_str()).into_owned()) {
        Ok(o) => {
            let o = o.replace('\r', "");
            tr.ev(json!({"ev": "Redact", "lines": lines, "obs": {"lines": o.split('\n').collect::<Vec<_>>()}}))
        }
        Err(p) => tr.ev(json!({"ev": "Panic", "obs": {"panic": format!("{p} for {text:?}")}})),
    }
}

fn chars(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}

fn item(k: &str, t: String) -> Value {
    json!({"k": k, "t": t})
}

fn secret(r: &mut Rng) -> Value {
    let seg = |r: &mut Rng| {
        let n = 4 * r.range(1, 4);
        let s = format!("{:x}", r.below(1 << n));
        if r.chance(1, 4) { s.to_uppercase() } else { s }
    };
    let segs = |r: &mut Rng, n: u64| (0..n).map(|_| seg(r)).collect::<Vec<_>>().join(":");
    let v4 = |r: &mut Rng| (0..4).map(|_| r.below(256).to_string()).collect::<Vec<_>>().join(".");
    match r.below(9) {
        0 => item("v4", v4(r)),
        1 => item("v6", segs(r, 8)),
        2 | 3 => {
            let a = r.below(8);
            let b = r.below(8 - a);
            item("v6", format!("{}::{}", segs(r, a), segs(r, b)))
        }
        4 => {
            let n = r.range(1, 4);
            item("v6", format!("fe80:{}%{}", (0..n).map(|_| format!(":{}", seg(r))).collect::<String>(), r.pick(&["1", "eth0", "en5"])))
        }
        5 => {
            let n = r.below(5);
            item("v6", format!("{}::{}", segs(r, n), v4(r)))
        }
        6 => item("v6", format!("::ffff:{}{}", r.pick(&["", "0:", "00:", "0000:"]), v4(r))),
        7 => item("foundation", format!("candidate:{}", r.next())),
        _ => item("pwd", format!("a=ice-pwd:{:x}", r.next())),
    }
}

fn name(tr: &mut Tracer, s: &str) {
    match catch(|| redact_for_logging(s)) {
        Ok(o) => tr.ev(json!({"ev": "Name", "name": chars(s), "ascii": s.is_ascii(), "obs": {"shown": chars(&o)}})),
        Err(p) => tr.ev(json!({"ev": "Panic", "obs": {"panic": format!("{p} for {s:?}")}})),
    }
}

/// Keeps the lines of the audio backend.
struct Capture;
static LINES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        LINES.lock().unwrap().push(r.args().to_string());
    }
    fn flush(&self) {}
}

/// A message of the audio backend, with device names where such messages have them.
fn message(tr: &mut Tracer, r: &mut Rng) {
    let stems = ["Jabra", "J", " of Al", "你好", "USB Audio", "-x", "(2)"];
    let mut word = |r: &mut Rng| {
        (0..r.below(4)).map(|_| *r.pick(&stems)).collect::<String>()
    };
    let t = |s: &str| ("text", s.to_string());
    let n = |r: &mut Rng, word: &mut dyn FnMut(&mut Rng) -> String| ("name", word(r));
    let kind = r.below(9);
    let parts = match kind {
        0 | 1 => vec![t("Found matching device for "), n(r, &mut word), t(": "), n(r, &mut word)],
        2 => vec![t("collection: Audio device default changed, id = "), n(r, &mut word), t(".")],
        3 => vec![t("collection: Audio device state changed, id = "), n(r, &mut word), t(", state = 4.")],
        4 => vec![t("endpoint: Audio device default changed flow=1 role=2 new_device_id="), n(r, &mut word), t(".")],
        5 => vec![t("Device 77 ("), n(r, &mut word), t(") has 2 INPUT-channels")],
        6 => vec![
            t("Input uid=\""), n(r, &mut word), t("\", model_uid=\""), n(r, &mut word),
            t("\", transport_type=usb, source=7, source_name=\""), n(r, &mut word), t("\", name=\""), n(r, &mut word),
            t("\", manufacturer=\"Some Co\""),
        ],
        7 => vec![t("nothing about a device, volume 0.5")],
        _ => vec![t("DeviceID: \"x\" Name: \""), n(r, &mut word), t("\"")],
    };
    let ident = *r.pick(&["cubeb.c:12", "mod.rs:4711", "nowhere"]);
    let text: String = parts.iter().map(|(_, t)| t.as_str()).collect();
    // the text of kinds without a line number must not look as if it had one
    let parts: Vec<Value> = std::iter::once(("text", ": ".to_string()))
        .chain(parts)
        .map(|(k, t)| json!({"k": k, "c": chars(&t), "ascii": t.is_ascii()}))
        .collect();
    let whole = std::ffi::CString::new(format!("{ident}: {text}")).unwrap();
    LINES.lock().unwrap().clear();
    let res = catch(|| ringrtc::webrtc::audio_device_module::vp_log_c_str(&whole));
    match res {
        Ok(()) => {
            let lines = LINES.lock().unwrap().clone();
            let shown: Vec<_> = lines.iter().map(|l| chars(l.strip_prefix(&format!("cubeb: {ident}")).unwrap_or(l))).collect();
            tr.ev(json!({"ev": "Message", "logged": ident != "nowhere" && kind < 8, "parts": parts, "obs": {"shown": shown}}));
        }
        Err(p) => tr.ev(json!({"ev": "Panic", "obs": {"panic": format!("{p} for {text:?}")}})),
    }
}

pub fn main(args: &Args) {
    log::set_boxed_logger(Box::new(Capture)).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    let mut tr = args.out();
    let mut r = Rng::new(args.num("seed", 1));
    for (i, s) in args.scripts().iter().enumerate() {
        if i % 50 == 0 {
            tr.ev(json!({"ev": "Reset"}));
        }
        redact(&mut tr, &json!(s), i % 7 == 0);
    }
    let words = ["", " ", "text ", "@", "[", "(", "udp 1 ", "typ host ", "at 12:34:56 ", "v2.70.0 ", "=", "é\u{1F600} ", "raddr "];
    let after = ["", " ", "]:443", ">", ", ", " rport 9", "/64", ";"];
    for _ in 0..args.num("n", 100) {
        tr.ev(json!({"ev": "Reset"}));
        for _ in 0..5 {
            let lines: Vec<Value> = (0..r.range(1, 4))
                .map(|_| {
                    let mut l = vec![];
                    for k in 0..r.below(4) {
                        if k > 0 {
                            l.push(item("word", " ".to_string()));
                        }
                        l.push(item("word", r.pick(&words).to_string()));
                        if r.chance(3, 4) {
                            l.push(secret(&mut r));
                        }
                        l.push(item("word", r.pick(&after).to_string()));
                    }
                    json!(l)
                })
                .collect();
            let crlf = r.chance(1, 5);
            redact(&mut tr, &json!(lines), crlf);
        }
        let n: String = (0..r.below(8)).map(|_| *r.pick(&['a', 'Z', ' ', '7', '.', '你', 'é'])).collect();
        name(&mut tr, &n);
        let n: String = (0..r.below(8)).map(|_| *r.pick(&['a', 'Z', ' ', '7', '.'])).collect();
        name(&mut tr, &n);
        for _ in 0..4 {
            message(&mut tr, &mut r);
        }
    }
}
