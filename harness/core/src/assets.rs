//! Drives core::assets.
use ringrtc::{
    common::SemanticVersion,
    core::assets::{AssetError, AssetHandle, AssetManager, AssetManifestEntry},
    protobuf::assets::AssetMetadata,
};
use sha2::{Digest, Sha512};
use vpcommon::*;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn ver_json(v: &SemanticVersion) -> Value {
    json!(v.to_string().split('.').map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>())
}
fn ver_text(v: &Value, r: &mut Rng) -> String {
    let a: Vec<String> = v.as_array().unwrap().iter().map(|x| x.to_string()).collect();
    if a.is_empty() {
        r.pick(&["", "1", "1.2", "1.2.x", "v1.2.3", "70000.0.0", "1..2", "a.b.c", "1.2.-3", "1,2,3"]).to_string()
    } else {
        a.join(".")
    }
}

fn episode(out: &mut Tracer, script: &[Value], r: &mut Rng, dir: &std::path::Path) {
    let m = &script[0]["manifest"];
    let entries: Vec<_> = m
        .as_array()
        .unwrap()
        .iter()
        .map(|e| AssetManifestEntry {
            metadata: AssetMetadata {
                asset_group: e["g"].as_str().unwrap().into(),
                version: ver_text(&e["v"], r),
                size_bytes: e["size"].as_u64().unwrap() as u32,
                sha512_hash: Sha512::digest(bytes(&e["want"])).to_vec(),
            },
            disabled: e["disabled"].as_bool().unwrap(),
        })
        .collect();
    let mut groups: Vec<String> = m.as_array().unwrap().iter().map(|e| e["g"].as_str().unwrap().to_string()).collect();
    groups.push("nobody".into());
    groups.sort();
    groups.dedup();
    let versions: Vec<Value> = m.as_array().unwrap().iter().map(|e| e["v"].clone()).filter(|v| v != &json!([])).collect();
    out.ev(json!({"ev": "Reset", "manifest": m}));
    let mut mgr = AssetManager::new(entries);
    let early = mgr.get_registry();
    for op in &script[1..] {
        let g = op["g"].as_str().unwrap();
        let content = bytes(&op["c"]);
        let how = op["how"].as_str().unwrap();
        let file = dir.join("asset");
        let handle = match how {
            "content" => AssetHandle::Content(content.clone()),
            "file" => {
                std::fs::write(&file, &content).unwrap();
                AssetHandle::FilePath(file.to_str().unwrap().into())
            }
            _ => AssetHandle::FilePath(dir.join("missing").to_str().unwrap().into()),
        };
        let res = catch(|| mgr.add_asset_for_feature(g, handle));
        let res = match res {
            Err(p) => {
                out.ev(json!({"ev": "Panic", "obs": {"panic": p}}));
                return;
            }
            Ok(x) => x,
        };
        let res = match res {
            Ok(()) => "ok".to_string(),
            Err(AssetError::DisabledAsset) => "DisabledAsset".into(),
            Err(AssetError::UnsupportedAsset(x)) if x == g => "UnsupportedAsset".into(),
            Err(AssetError::FailedToReadAssetFile(..)) => "FailedToReadAssetFile".into(),
            Err(AssetError::InvalidAssetMetadata(_)) => "InvalidAssetMetadata".into(),
            Err(AssetError::InvalidAssetPayload { asset_group, content_hash })
                if asset_group == g && content_hash == hex::encode(Sha512::digest(&content)) =>
            {
                "InvalidAssetPayload".into()
            }
            Err(AssetError::AssetAlreadyRegistered(_, x)) if x == g => "AssetAlreadyRegistered".into(),
            Err(e) => format!("{e:?}"),
        };
        // through the manager, through a registry handle from the start, and through one taken now
        let now = mgr.get_registry();
        let mut opts = serde_json::Map::new();
        let mut contents = serde_json::Map::new();
        for g in &groups {
            let a = mgr.get_options_for(g);
            if a != early.get_options_for(g) || a != now.get_options_for(g) {
                opts.insert("views differ".into(), json!(g));
            }
            if let Some(vs) = a {
                opts.insert(g.clone(), vs.iter().map(ver_json).collect());
                contents.insert(g.clone(), vs.iter().map(|v| early.get_asset(g, *v).map_or(json!("none"), |a| json!(*a.content))).collect());
            }
        }
        out.ev(json!({"ev": "Add", "g": g, "c": op["c"], "how": how, "obs": {"res": res, "opts": opts, "contents": contents}}));
        if r.chance(1, 3) && !versions.is_empty() {
            let v = r.pick(&versions).clone();
            let g = r.pick(&groups).clone();
            let n: Vec<u16> = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
            let a = now.get_asset(&g, SemanticVersion::new(n[0], n[1], n[2]));
            out.ev(json!({"ev": "Get", "g": g, "v": v, "obs": {"asset": a.iter().map(|a| json!(*a.content)).collect::<Vec<_>>()}}));
        }
    }
}

fn random(r: &mut Rng) -> Vec<Value> {
    let groups = ["g", "h", "opus-dred", ""];
    let comps = [0u64, 1, 2, 9, 10, 11, 99, 100, 1000, 65535];
    let ng = r.range(1, 3);
    let n = r.range(1, 8);
    let mut m = vec![];
    let mut wants: Vec<Vec<u64>> = vec![];
    for _ in 0..n {
        let want: Vec<u64> = if !wants.is_empty() && r.chance(1, 4) {
            // shares a leading part with another one
            let mut w = r.pick(&wants).clone();
            if r.chance(1, 2) { w.push(r.below(3)); } else { w.pop(); }
            w
        } else {
            (0..r.below(5)).map(|_| r.below(3)).collect()
        };
        wants.push(want.clone());
        let v: Value = if r.chance(1, 12) { json!([]) } else { json!([*r.pick(&comps[..4]), *r.pick(&comps), *r.pick(&comps)]) };
        let k = if r.chance(1, 12) { 1 } else { 0 };
        m.push(json!({"g": groups[r.below(ng) as usize], "v": v, "size": want.len() + k, "want": want, "disabled": r.chance(1, 6)}));
    }
    let mut s = vec![json!({"manifest": m})];
    for _ in 0..r.range(1, 14) {
        let mut c = r.pick(&wants).clone();
        match r.below(6) {
            0 => c.push(r.below(3)),
            1 => { c.pop(); }
            2 if !c.is_empty() => { let i = r.below(c.len() as u64) as usize; c[i] ^= 1; }
            3 => c.extend([0, 1, 2]),
            _ => {}
        }
        let how = r.pick(&["content", "content", "content", "file", "missing"]);
        let g = if r.chance(1, 10) { "nobody" } else { groups[r.below(ng) as usize] };
        s.push(json!({"op": "Add", "g": g, "c": c, "how": how}));
    }
    s
}

pub fn main(args: &Args) {
    let mut out = args.out();
    let mut r = Rng::new(args.num("seed", 1));
    let dir = std::env::temp_dir().join(format!("vp-assets-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for s in args.scripts() {
        episode(&mut out, &s, &mut r, &dir);
    }
    for _ in 0..args.num("n", 0) {
        let s = random(&mut r);
        episode(&mut out, &s, &mut r, &dir);
    }
    std::fs::remove_dir_all(&dir).unwrap();
}
