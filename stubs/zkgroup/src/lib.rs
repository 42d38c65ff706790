//! Stand-in for signalapp/libsignal's zkgroup (a git dependency the sandbox cannot fetch).
//!
//! A *symbolic* model of the API surface ringrtc uses: ciphertexts, endorsements and keys are
//! transparent byte strings tagged with the parameters that made them, so that a check can tell
//! which key, which expiration and which user an object belongs to. No cryptography.
use serde::{Deserialize, Serialize};
use std::time::{Duration, SystemTime};

pub const UUID_LEN: usize = 16;
pub const RANDOMNESS_LEN: usize = 32;
pub type RandomnessBytes = [u8; RANDOMNESS_LEN];

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ZkGroupDeserializationFailure;
impl std::fmt::Display for ZkGroupDeserializationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "zkgroup deserialization failure")
    }
}
impl std::error::Error for ZkGroupDeserializationFailure {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ZkGroupVerificationFailure;
impl std::fmt::Display for ZkGroupVerificationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "zkgroup verification failure")
    }
}
impl std::error::Error for ZkGroupVerificationFailure {}

pub fn serialize<T: Serialize>(value: &T) -> Vec<u8> {
    bincode::serialize(value).expect("serializable")
}
pub fn deserialize<T: serde::de::DeserializeOwned>(
    bytes: &[u8],
) -> Result<T, ZkGroupDeserializationFailure> {
    let v: T = bincode::deserialize(bytes).map_err(|_| ZkGroupDeserializationFailure)?;
    Ok(v)
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Timestamp(u64);
impl Timestamp {
    pub const fn from_epoch_seconds(s: u64) -> Self {
        Self(s)
    }
    pub const fn epoch_seconds(&self) -> u64 {
        self.0
    }
    pub const fn add_seconds(&self, s: u64) -> Self {
        Self(self.0 + s)
    }
}
impl From<Timestamp> for SystemTime {
    fn from(t: Timestamp) -> Self {
        SystemTime::UNIX_EPOCH + Duration::from_secs(t.0)
    }
}

/// Names the server root key pair; endorsements verify only under the one that issued them.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EndorsementPublicKey {
    pub key: [u8; 32],
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Aci([u8; 16]);
impl Aci {
    pub fn from_uuid_bytes(b: [u8; 16]) -> Self {
        Self(b)
    }
    pub fn service_id_binary(&self) -> Vec<u8> {
        self.0.to_vec()
    }
}

pub mod call_links {
    use super::*;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct CallLinkSecretParams {
        root: [u8; 16],
    }
    impl CallLinkSecretParams {
        pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
        pub fn derive_from_root_key(root_key: &[u8]) -> Self {
            let mut root = [0; 16];
            let n = root_key.len().min(16);
            root[..n].copy_from_slice(&root_key[..n]);
            Self { root }
        }
        pub fn encrypt_uid(&self, uid: Aci) -> groups::UuidCiphertext {
            groups::UuidCiphertext {
                reserved: 0,
                root: self.root,
                uid: uid.0,
            }
        }
        pub fn decrypt_uid(
            &self,
            ct: groups::UuidCiphertext,
        ) -> Result<Aci, ZkGroupVerificationFailure> {
            if ct.root == self.root && ct.reserved == 0 {
                Ok(Aci(ct.uid))
            } else {
                Err(ZkGroupVerificationFailure)
            }
        }
        pub(crate) fn root(&self) -> [u8; 16] {
            self.root
        }
    }
}

pub mod groups {
    use super::*;
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct UuidCiphertext {
        pub reserved: u8,
        pub root: [u8; 16],
        pub uid: [u8; 16],
    }
    /// `tag` distinguishes two issuances for the same user; `members` lists what was combined.
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsement {
        pub uid: [u8; 16],
        pub expiration: u64,
        pub tag: u32,
        pub combined: u32,
    }
    impl GroupSendEndorsement {
        pub fn combine(it: impl IntoIterator<Item = GroupSendEndorsement>) -> Self {
            let mut r = GroupSendEndorsement {
                uid: [0; 16],
                expiration: 0,
                tag: 0,
                combined: 0,
            };
            for e in it {
                for i in 0..16 {
                    r.uid[i] ^= e.uid[i];
                }
                r.expiration = r.expiration.max(e.expiration);
                r.tag = r.tag.wrapping_add(e.tag);
                r.combined += e.combined.max(1);
            }
            r
        }
        pub fn to_token(&self, params: call_links::CallLinkSecretParams) -> GroupSendToken {
            GroupSendToken {
                endorsement: *self,
                root: params.root(),
            }
        }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct GroupSendToken {
        pub endorsement: GroupSendEndorsement,
        pub root: [u8; 16],
    }
    impl GroupSendToken {
        pub fn into_full_token(self, expiration: Timestamp) -> GroupSendFullToken {
            GroupSendFullToken {
                token: self,
                expiration,
            }
        }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct GroupSendFullToken {
        pub token: GroupSendToken,
        pub expiration: Timestamp,
    }
    impl GroupSendFullToken {
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsementsResponse {
        pub expiration: u64,
        pub key: [u8; 32],
        pub tag: u32,
        pub members: Vec<UuidCiphertext>,
    }
    pub struct ReceivedEndorsement {
        pub decompressed: GroupSendEndorsement,
    }
    impl GroupSendEndorsementsResponse {
        pub fn issue(
            members: Vec<UuidCiphertext>,
            key: &EndorsementPublicKey,
            expiration: Timestamp,
            tag: u32,
        ) -> Self {
            Self {
                expiration: expiration.0,
                key: key.key,
                tag,
                members,
            }
        }
        pub fn expiration(&self) -> Timestamp {
            Timestamp(self.expiration)
        }
        /// As in zkgroup: fails when the proof does not match the key or the member list, when the
        /// expiration is past, not day-aligned, or more than a week away.
        pub fn receive_with_ciphertexts(
            self,
            members: impl IntoIterator<Item = UuidCiphertext>,
            now: Timestamp,
            key: &EndorsementPublicKey,
        ) -> Result<Vec<ReceivedEndorsement>, ZkGroupVerificationFailure> {
            let members: Vec<_> = members.into_iter().collect();
            if self.key != key.key
                || members != self.members
                || self.expiration % 86400 != 0
                || self.expiration < now.0 + 2 * 60 * 60
                || self.expiration > now.0 + 7 * 86400
            {
                return Err(ZkGroupVerificationFailure);
            }
            Ok(members
                .iter()
                .map(|m| ReceivedEndorsement {
                    decompressed: GroupSendEndorsement {
                        uid: m.uid,
                        expiration: self.expiration,
                        tag: self.tag,
                        combined: 1,
                    },
                })
                .collect())
        }
    }
}
