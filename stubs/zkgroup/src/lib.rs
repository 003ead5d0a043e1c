//! Stand-in for the part of zkgroup that ringrtc uses. The zero-knowledge cryptography is replaced
//! by hashes with the same *functional* contract: deterministic invertible encryption of service
//! ids under a key derived from the root key (65-byte ciphertexts, rejected under any other key),
//! and endorsements that verify only against the key, member list and expiration they were issued
//! for. No secrecy is claimed.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sha2::{Digest, Sha256};

pub const RANDOMNESS_LEN: usize = 32;
pub const UUID_LEN: usize = 16;
pub const SECONDS_PER_DAY: u64 = 86400;
pub type RandomnessBytes = [u8; RANDOMNESS_LEN];

fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut d = Sha256::new();
    for p in parts {
        d.update((p.len() as u64).to_be_bytes());
        d.update(p);
    }
    d.finalize().into()
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ZkGroupDeserializationFailure;
impl std::fmt::Display for ZkGroupDeserializationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("zkgroup deserialization failure")
    }
}
impl std::error::Error for ZkGroupDeserializationFailure {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ZkGroupVerificationFailure;
impl std::fmt::Display for ZkGroupVerificationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("zkgroup verification failure")
    }
}
impl std::error::Error for ZkGroupVerificationFailure {}

pub fn serialize<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serialize(v).expect("can serialize")
}
pub fn deserialize<T: DeserializeOwned>(b: &[u8]) -> Result<T, ZkGroupDeserializationFailure> {
    bincode::deserialize(b).map_err(|_| ZkGroupDeserializationFailure)
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize, Default)]
#[serde(transparent)]
pub struct Timestamp(u64);
impl Timestamp {
    pub const fn from_epoch_seconds(s: u64) -> Self {
        Timestamp(s)
    }
    pub const fn epoch_seconds(&self) -> u64 {
        self.0
    }
    pub const fn add_seconds(&self, s: u64) -> Self {
        Timestamp(self.0 + s)
    }
    pub const fn is_day_aligned(&self) -> bool {
        self.0 % SECONDS_PER_DAY == 0
    }
    pub const fn saturating_seconds_since(&self, before: Timestamp) -> u64 {
        self.0.saturating_sub(before.0)
    }
}
impl From<Timestamp> for std::time::SystemTime {
    fn from(t: Timestamp) -> Self {
        std::time::UNIX_EPOCH + std::time::Duration::from_secs(t.0)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EndorsementPublicKey([u8; 32]);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EndorsementServerRootKeyPair([u8; 32]);
impl EndorsementServerRootKeyPair {
    pub fn public_key(&self) -> EndorsementPublicKey {
        EndorsementPublicKey(self.0)
    }
}
impl AsRef<EndorsementServerRootKeyPair> for EndorsementServerRootKeyPair {
    fn as_ref(&self) -> &Self {
        self
    }
}
impl AsRef<EndorsementPublicKey> for EndorsementPublicKey {
    fn as_ref(&self) -> &Self {
        self
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ServerSecretParams {
    k: EndorsementServerRootKeyPair,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ServerPublicParams {
    k: EndorsementPublicKey,
}
impl ServerSecretParams {
    pub fn generate(r: RandomnessBytes) -> Self {
        ServerSecretParams { k: EndorsementServerRootKeyPair(h(&[b"server", &r])) }
    }
    pub fn get_public_params(&self) -> ServerPublicParams {
        ServerPublicParams { k: self.k.public_key() }
    }
    pub fn get_endorsement_root_key_pair(&self) -> EndorsementServerRootKeyPair {
        self.k.clone()
    }
}
impl AsRef<EndorsementServerRootKeyPair> for ServerSecretParams {
    fn as_ref(&self) -> &EndorsementServerRootKeyPair {
        &self.k
    }
}
impl ServerPublicParams {
    pub fn get_endorsement_public_key(&self) -> EndorsementPublicKey {
        self.k.clone()
    }
}
impl AsRef<EndorsementPublicKey> for ServerPublicParams {
    fn as_ref(&self) -> &EndorsementPublicKey {
        &self.k
    }
}

pub mod call_links {
    use super::*;
    use crate::groups::UuidCiphertext;
    use libsignal_core::Aci;

    /// Stands for the uid-encryption key pair (ringrtc's own tests compare its fields).
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct KeyPair {
        pub a1: [u8; 32],
        pub a2: [u8; 32],
        pub public_key: [u8; 32],
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct CallLinkSecretParams([u8; 32], KeyPair);
    impl AsRef<KeyPair> for CallLinkSecretParams {
        fn as_ref(&self) -> &KeyPair {
            &self.1
        }
    }
    impl CallLinkSecretParams {
        pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
        pub fn derive_from_root_key(k: &[u8]) -> Self {
            // As in the real crate, only the first 16 bytes feed the derivation, so that longer
            // (newer version) root keys keep the parameters of their 16-byte prefix.
            let k = &k[..k.len().min(16)];
            let s = h(&[b"20230424_Signal_ZKGroup_CallLinkSecretParams", k]);
            let (a1, a2) = (h(&[b"a1", &s]), h(&[b"a2", &s]));
            CallLinkSecretParams(s, KeyPair { a1, a2, public_key: h(&[b"pk", &a1, &a2]) })
        }
        pub fn encrypt_uid(&self, id: Aci) -> UuidCiphertext {
            let bin = id.service_id_binary();
            let mut plain = [0u8; 32];
            plain[0] = bin.len() as u8;
            plain[1..1 + bin.len()].copy_from_slice(&bin);
            let tag = h(&[b"tag", &self.0, &plain]);
            let ks = h(&[b"ks", &self.0, &tag]);
            let mut c2 = [0u8; 32];
            for i in 0..32 {
                c2[i] = plain[i] ^ ks[i];
            }
            UuidCiphertext { reserved: 0, c1: tag, c2 }
        }
        pub fn decrypt_uid(&self, c: UuidCiphertext) -> Result<Aci, ZkGroupVerificationFailure> {
            let ks = h(&[b"ks", &self.0, &c.c1]);
            let mut plain = [0u8; 32];
            for i in 0..32 {
                plain[i] = c.c2[i] ^ ks[i];
            }
            if h(&[b"tag", &self.0, &plain]) != c.c1 {
                return Err(ZkGroupVerificationFailure);
            }
            let mut u = [0u8; 16];
            match plain[0] {
                16 => {
                    u.copy_from_slice(&plain[1..17]);
                    Ok(Aci::from_uuid_bytes(u))
                }
                _ => Err(ZkGroupVerificationFailure),
            }
        }
        pub(crate) fn bytes(&self) -> [u8; 32] {
            self.0
        }
    }
}

pub mod groups {
    use super::*;
    use crate::call_links::CallLinkSecretParams;

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct UuidCiphertext {
        pub(crate) reserved: u8,
        pub(crate) c1: [u8; 32],
        pub(crate) c2: [u8; 32],
    }

    #[derive(Clone, Debug)]
    pub struct GroupSendDerivedKeyPair {
        k: [u8; 32],
        expiration: Timestamp,
    }
    impl GroupSendDerivedKeyPair {
        pub fn for_expiration(
            expiration: Timestamp,
            root: impl AsRef<EndorsementServerRootKeyPair>,
        ) -> Self {
            GroupSendDerivedKeyPair {
                k: h(&[b"derived", &root.as_ref().0, &expiration.0.to_be_bytes()]),
                expiration,
            }
        }
    }

    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct GroupSendEndorsement([u8; 32]);
    impl GroupSendEndorsement {
        /// Order-independent, as group addition is.
        pub fn combine(it: impl IntoIterator<Item = GroupSendEndorsement>) -> GroupSendEndorsement {
            let mut acc = [0u8; 32];
            for e in it {
                let mut carry = 0u16;
                for i in 0..32 {
                    let s = acc[i] as u16 + e.0[i] as u16 + carry;
                    acc[i] = s as u8;
                    carry = s >> 8;
                }
            }
            GroupSendEndorsement(acc)
        }
        pub fn to_token(&self, p: CallLinkSecretParams) -> GroupSendToken {
            GroupSendToken(h(&[b"token", &self.0, &p.bytes()]))
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct ReceivedEndorsement {
        pub compressed: [u8; 32],
        pub decompressed: GroupSendEndorsement,
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendToken([u8; 32]);
    impl GroupSendToken {
        pub fn into_full_token(self, expiration: Timestamp) -> GroupSendFullToken {
            GroupSendFullToken { token: self.0, expiration }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendFullToken {
        token: [u8; 32],
        expiration: Timestamp,
    }
    impl GroupSendFullToken {
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsementsResponse {
        reserved: u8,
        endorsements: Vec<[u8; 32]>,
        proof: [u8; 32],
        expiration: Timestamp,
    }
    fn proof_of(k: &[u8; 32], cts: &[UuidCiphertext], es: &[[u8; 32]]) -> [u8; 32] {
        let mut buf = vec![];
        for (c, e) in cts.iter().zip(es) {
            buf.extend_from_slice(&serialize(c));
            buf.extend_from_slice(e);
        }
        h(&[b"proof", k, &buf])
    }
    impl GroupSendEndorsementsResponse {
        pub fn issue(
            cts: impl IntoIterator<Item = UuidCiphertext>,
            key: &GroupSendDerivedKeyPair,
            _r: RandomnessBytes,
        ) -> Self {
            let cts: Vec<_> = cts.into_iter().collect();
            let endorsements: Vec<[u8; 32]> =
                cts.iter().map(|c| h(&[b"endorse", &key.k, &serialize(c)])).collect();
            let proof = proof_of(&key.k, &cts, &endorsements);
            Self { reserved: 0, endorsements, proof, expiration: key.expiration }
        }
        pub fn expiration(&self) -> Timestamp {
            self.expiration
        }
        pub fn receive_with_ciphertexts(
            self,
            cts: impl IntoIterator<Item = UuidCiphertext>,
            now: Timestamp,
            root: impl AsRef<EndorsementPublicKey>,
        ) -> Result<Vec<ReceivedEndorsement>, ZkGroupVerificationFailure> {
            let cts: Vec<_> = cts.into_iter().collect();
            if !self.expiration.is_day_aligned() {
                return Err(ZkGroupVerificationFailure);
            }
            let left = self.expiration.saturating_seconds_since(now);
            if left < 2 * 3600 || left > 7 * SECONDS_PER_DAY {
                return Err(ZkGroupVerificationFailure);
            }
            let k = h(&[b"derived", &root.as_ref().0, &self.expiration.0.to_be_bytes()]);
            if cts.len() != self.endorsements.len()
                || proof_of(&k, &cts, &self.endorsements) != self.proof
            {
                return Err(ZkGroupVerificationFailure);
            }
            Ok(self
                .endorsements
                .iter()
                .map(|e| ReceivedEndorsement { compressed: *e, decompressed: GroupSendEndorsement(*e) })
                .collect())
        }
    }
}
