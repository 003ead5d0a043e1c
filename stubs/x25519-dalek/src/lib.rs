//! Stand-in for x25519-dalek 2.0.1, which is not available offline.
//! It is real X25519 (clamped Montgomery-ladder scalar multiplication from curve25519-dalek).
use curve25519_dalek::montgomery::MontgomeryPoint;
use rand_core::{CryptoRng, RngCore};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct PublicKey(MontgomeryPoint);
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        PublicKey(MontgomeryPoint(b))
    }
}
impl PublicKey {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0.to_bytes()
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        self.0.as_bytes()
    }
}
impl AsRef<[u8]> for PublicKey {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}

pub struct SharedSecret(MontgomeryPoint);
impl SharedSecret {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0.to_bytes()
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        self.0.as_bytes()
    }
    pub fn was_contributory(&self) -> bool {
        self.0.as_bytes() != &[0u8; 32]
    }
}

pub struct EphemeralSecret(pub(crate) [u8; 32]);
impl EphemeralSecret {
    pub fn random_from_rng<T: RngCore + CryptoRng>(mut rng: T) -> Self {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        EphemeralSecret(b)
    }
    pub fn diffie_hellman(self, their_public: &PublicKey) -> SharedSecret {
        SharedSecret(their_public.0.mul_clamped(self.0))
    }
}
impl<'a> From<&'a EphemeralSecret> for PublicKey {
    fn from(s: &'a EphemeralSecret) -> Self {
        PublicKey(MontgomeryPoint::mul_base_clamped(s.0))
    }
}

#[derive(Clone)]
pub struct StaticSecret([u8; 32]);
impl StaticSecret {
    pub fn random_from_rng<T: RngCore + CryptoRng>(mut rng: T) -> Self {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        StaticSecret(b)
    }
    pub fn diffie_hellman(&self, their_public: &PublicKey) -> SharedSecret {
        SharedSecret(their_public.0.mul_clamped(self.0))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<[u8; 32]> for StaticSecret {
    fn from(b: [u8; 32]) -> Self {
        StaticSecret(b)
    }
}
impl<'a> From<&'a StaticSecret> for PublicKey {
    fn from(s: &'a StaticSecret) -> Self {
        PublicKey(MontgomeryPoint::mul_base_clamped(s.0))
    }
}
