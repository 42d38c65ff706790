ID="D01-same-version-twice"; PROP="D01"
NEEDS="a manifest with two entries of one group and version but different content, both contents offered"
BREAKS="Already registered is decided by the set's own identity, which includes the content hash, so a version is registered twice with different content."
EDITS=[("src/rust/src/core/assets.rs","""        if asset_set.iter().any(|a| a.version == version) {
            return Err(AssetError::AssetAlreadyRegistered(
                version,
                asset_group.to_owned(),
            ));
        }
        let _ = asset_set.insert(asset);
""","""        if !asset_set.insert(asset) {
            return Err(AssetError::AssetAlreadyRegistered(
                version,
                asset_group.to_owned(),
            ));
        }
""")]
DEPS='ringrtc = { path = "@WS@/src/rust", features = ["native", "simnet", "virtual_audio"] }\nsha2 = "0.10"\n'
MAIN='''use ringrtc::core::assets::*;
use ringrtc::protobuf::assets::AssetMetadata;
use sha2::{Digest, Sha512};
fn entry(c: &[u8]) -> AssetManifestEntry {
    AssetManifestEntry { metadata: AssetMetadata { asset_group: "g".into(), version: "1.2.3".into(),
        sha512_hash: Sha512::digest(c).to_vec(), size_bytes: c.len() as _, ..Default::default() }, disabled: false }
}
fn main() {
    let mut m = AssetManager::new(vec![entry(b"first"), entry(b"other")]);
    m.add_asset_for_feature("g", AssetHandle::Content(b"first".to_vec())).unwrap();
    assert!(m.add_asset_for_feature("g", AssetHandle::Content(b"other".to_vec())).is_err());
    assert_eq!(m.get_options_for("g").unwrap().len(), 1);
}
'''
