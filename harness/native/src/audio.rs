//! webrtc/audio_device_module_utils.rs: enumeration of audio devices, names copied to C.
use cubeb_core::{DevicePref, DeviceState, DeviceType};
use ringrtc::webrtc::{
    audio_device_module_utils::{DeviceCollectionWrapper, copy_and_truncate_string},
    ptr::Borrowed,
};
use vpcommon::*;

/// device: [state, type, id, prefs, name]; id "" means none
fn build(devs: &[Value]) -> DeviceCollectionWrapper {
    DeviceCollectionWrapper::from_parts(
        devs.iter()
            .enumerate()
            .map(|(i, d)| {
                let s = |k: &str| d[k].as_str().unwrap();
                let mut pref = DevicePref::empty();
                for p in d["pref"].as_array().unwrap() {
                    pref |= match p.as_str().unwrap() {
                        "voice" => DevicePref::VOICE,
                        "multimedia" => DevicePref::MULTIMEDIA,
                        _ => DevicePref::NOTIFICATION,
                    };
                }
                (
                    (i + 1) as *const std::ffi::c_void,
                    (!s("id").is_empty()).then(|| s("id").to_string()),
                    s("name").to_string(),
                    if s("type") == "input" { DeviceType::INPUT } else { DeviceType::OUTPUT },
                    pref,
                    match s("state") {
                        "enabled" => DeviceState::Enabled,
                        "disabled" => DeviceState::Disabled,
                        _ => DeviceState::Unplugged,
                    },
                )
            })
            .collect(),
    )
}

fn list(tr: &mut Tracer, devs: &[Value]) {
    match catch(|| {
        let c = build(devs);
        let at: Vec<usize> = (0..devs.len() + 3).map(|i| c.get(i).map_or(0, |d| d.devid as usize)).collect();
        let names: Vec<Value> = c
            .extract_names()
            .iter()
            .map(|n| n.as_ref().map_or(json!([]), |n| json!([n.name, n.unique_id, n.i18n_key])))
            .collect();
        let shown: Vec<usize> = c.iter().map(|d| d.devid as usize).collect();
        json!({"count": c.count(), "at": at, "names": names, "all": shown})
    }) {
        Ok(o) => tr.ev(json!({"ev": "List", "devs": devs, "obs": o})),
        Err(p) => tr.ev(json!({"ev": "Panic", "obs": {"panic": format!("{p} for {devs:?}")}})),
    }
}

fn copy(tr: &mut Tracer, text: &str, size: usize) {
    match catch(|| {
        let mut buf = vec![0xaau8; size + 4];
        let ok = copy_and_truncate_string(text, Borrowed::from_ptr(buf.as_mut_ptr()), size).is_ok();
        json!({"ok": ok, "buf": buf})
    }) {
        Ok(o) => tr.ev(json!({"ev": "Copy", "text": text.as_bytes(), "size": size, "obs": o})),
        Err(p) => tr.ev(json!({"ev": "Panic", "obs": {"panic": format!("{p} for {text:?} {size}")}})),
    }
}

pub fn main(args: &Args) {
    let mut tr = args.out();
    let mut r = Rng::new(args.num("seed", 1));
    for (i, s) in args.scripts().iter().enumerate() {
        if i % 50 == 0 {
            tr.ev(json!({"ev": "Reset"}));
        }
        list(&mut tr, s);
    }
    for _ in 0..args.num("n", 100) {
        tr.ev(json!({"ev": "Reset"}));
        for _ in 0..4 {
            let n = r.below(7);
            let devs: Vec<Value> = (0..n)
                .map(|_| {
                    let pref: Vec<&str> = ["voice", "multimedia", "notification"].into_iter().filter(|_| r.chance(1, 4)).collect();
                    json!({"state": r.pick(&["enabled", "enabled", "enabled", "disabled", "unplugged"]), "type": r.pick(&["input", "output"]),
                           "id": r.pick(&["", "a", "b.monitor", "c.monitor", ".monitor", "x.monitors", "monitor"]), "pref": pref,
                           "name": r.pick(&["Mic", "Mic", "Speaker", ""])})
                })
                .collect();
            list(&mut tr, &devs);
        }
        for _ in 0..4 {
            let t: String = (0..r.below(12)).map(|_| if r.chance(1, 30) { '\0' } else { *r.pick(&['a', 'B', 'c', 'é', '你']) }).collect();
            let size = r.range(1, 14) as usize;
            copy(&mut tr, &t, size);
            let t: String = (0..r.below(12)).map(|_| *r.pick(&['a', 'B', 'c'])).collect();
            copy(&mut tr, &t, size);
        }
    }
}
