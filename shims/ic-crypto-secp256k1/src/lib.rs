use k256::ecdsa::signature::hazmat::PrehashVerifier;
use k256::ecdsa::{self, Signature, VerifyingKey};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum KeyDecodingError {
    InvalidKeyEncoding(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RecoveryError {
    SignatureParseError(String),
    WrongParameters(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RecoveryId(ecdsa::RecoveryId);
impl RecoveryId {
    pub const fn is_y_odd(&self) -> bool {
        self.0.is_y_odd()
    }
    pub const fn is_x_reduced(&self) -> bool {
        self.0.is_x_reduced()
    }
    pub const fn to_byte(&self) -> u8 {
        self.0.to_byte()
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PublicKey(VerifyingKey);
impl PublicKey {
    pub fn deserialize_sec1(bytes: &[u8]) -> Result<Self, KeyDecodingError> {
        VerifyingKey::from_sec1_bytes(bytes)
            .map(PublicKey)
            .map_err(|e| KeyDecodingError::InvalidKeyEncoding(format!("{e:?}")))
    }
    pub fn serialize_sec1(&self, compressed: bool) -> Vec<u8> {
        self.0.to_encoded_point(compressed).as_bytes().to_vec()
    }
    pub fn verify_signature_prehashed(&self, digest: &[u8], signature: &[u8]) -> bool {
        let Ok(sig) = Signature::from_slice(signature) else {
            return false;
        };
        // The real library accepts high-s signatures here (it normalizes).
        let sig = sig.normalize_s().unwrap_or(sig);
        self.0.verify_prehash(digest, &sig).is_ok()
    }
    pub fn try_recovery_from_digest(
        &self,
        digest: &[u8],
        signature: &[u8],
    ) -> Result<RecoveryId, RecoveryError> {
        let sig = Signature::from_slice(signature)
            .map_err(|e| RecoveryError::SignatureParseError(format!("{e:?}")))?;
        ecdsa::RecoveryId::trial_recovery_from_prehash(&self.0, digest, &sig)
            .map(RecoveryId)
            .map_err(|e| RecoveryError::WrongParameters(format!("{e:?}")))
    }
}
