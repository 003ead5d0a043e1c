//! Stand-in for libsignal_core::Aci.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Aci([u8; 16]);
impl Aci {
    pub const fn from_uuid_bytes(b: [u8; 16]) -> Self {
        Aci(b)
    }
    /// ACIs are serialized as the 16 bytes of their UUID, without a kind prefix.
    pub fn service_id_binary(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    pub fn uuid_bytes(&self) -> [u8; 16] {
        self.0
    }
}
impl From<uuid::Uuid> for Aci {
    fn from(u: uuid::Uuid) -> Self {
        Aci(*u.as_bytes())
    }
}
