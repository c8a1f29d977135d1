//! Shorthands for the code under test, and the conversions the monitors use.
use cosmian_abe_gpsw::core::{
    bilinear_map::bls12_381::Bls12_381,
    gpsw::{AbeScheme, AsBytes, Gpsw},
    Engine,
};
use crate::model::World;
use crate::props::{wide_authority, Auth};
use crate::rng::Rng;
use cosmian_abe_gpsw::error::FormatErr;

pub type Sch = Gpsw<Bls12_381>;
pub type Msk = <Sch as AbeScheme>::MasterPrivateKey;
pub type Mpk = <Sch as AbeScheme>::MasterPublicKey;
pub type Mdk = <Sch as AbeScheme>::MasterPublicDelegationKey;
pub type Uk = <Sch as AbeScheme>::UserDecryptionKey;
pub type Ct = <Sch as AbeScheme>::CipherText;
pub type Pt = <Sch as AbeScheme>::PlainText;
pub type Eng = Engine<Sch>;

/// The scheme, over the real groups or the transparent ones
pub trait Scheme: AbeScheme<PlainText: PartialEq> + Send + Sync + 'static {
    const CLEAR: bool;
    /// An authority for the world, of which only the values of the pool are used
    fn wide(rng: &mut Rng, w: World, pool: &[u32]) -> Auth<Self>
    where
        Self: Sized;
    /// the name of a phase
    fn phase(name: &str) -> String {
        if Self::CLEAR { format!("transparent-{name}") } else { name.to_string() }
    }
    /// a number of cases, as many times more as the transparent groups are faster
    fn n(n: u64, times: u64) -> u64 {
        if Self::CLEAR { n * times } else { n }
    }
}
impl Scheme for Sch {
    const CLEAR: bool = false;
    fn wide(rng: &mut Rng, w: World, pool: &[u32]) -> Auth<Self> {
        wide_authority(rng, w, pool)
    }
}

pub fn enc<T: AsBytes>(t: &T) -> Vec<u8> {
    t.try_into_bytes().expect("serialization failed")
}
pub fn dec<T: AsBytes>(b: &[u8]) -> Result<T, FormatErr> {
    T::try_from_bytes(b)
}

/// The native hybrid functions, with AES 256 GCM
pub mod hy {
    use super::*;
    use abe_policy::{Attribute, Policy};
    pub use cosmian_abe_gpsw::interfaces::hybrid_crypto::{
        decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header,
        ClearTextHeader, EncryptedHeader,
    };
    use cosmian_crypto_base::symmetric_crypto::SymKey;
    pub use cosmian_crypto_base::symmetric_crypto::{
        aes_256_gcm_pure::Aes256GcmCrypto as Aes, Metadata, SymmetricCrypto,
    };
    use cosmian_crypto_base::KeyTrait;

    pub type Key = <Aes as SymmetricCrypto>::Key;
    /// identifier and additional data
    pub type Meta = (Vec<u8>, Option<Vec<u8>>);
    pub const MAX: usize = 1 << 30;

    pub fn key(b: &[u8]) -> Result<Key, String> {
        Key::try_from_bytes(b).map_err(|e| e.to_string())
    }
    pub fn key_bytes(k: &Key) -> Vec<u8> {
        k.as_bytes().to_vec()
    }
    pub fn metadata(m: &Meta) -> Metadata {
        Metadata { uid: m.0.clone(), additional_data: m.1.clone() }
    }
    /// (symmetric key, header)
    pub fn encrypt_header(
        p: &Policy,
        k: &Mpk,
        a: &[Attribute],
        m: Option<&Meta>,
    ) -> Result<(Vec<u8>, Vec<u8>), FormatErr> {
        encrypt_header_in::<Sch>(p, k, a, m)
    }
    pub fn encrypt_header_in<S: Scheme>(
        p: &Policy,
        k: &S::MasterPublicKey,
        a: &[Attribute],
        m: Option<&Meta>,
    ) -> Result<(Vec<u8>, Vec<u8>), FormatErr> {
        let h = encrypt_hybrid_header::<S, Aes>(p, k, a, m.map(metadata))?;
        Ok((key_bytes(&h.symmetric_key), h.encrypted_header_bytes))
    }
    pub fn decrypt_header(k: &Uk, h: &[u8]) -> Result<(Vec<u8>, Meta), FormatErr> {
        decrypt_header_in::<Sch>(k, h)
    }
    pub fn decrypt_header_in<S: Scheme>(k: &S::UserDecryptionKey, h: &[u8]) -> Result<(Vec<u8>, Meta), FormatErr> {
        let h = decrypt_hybrid_header::<S, Aes>(k, h)?;
        Ok((key_bytes(&h.symmetric_key), (h.meta_data.uid, h.meta_data.additional_data)))
    }
    pub fn enc_block_n<const N: usize>(k: &[u8], uid: &[u8], n: usize, d: &[u8]) -> Result<Vec<u8>, String> {
        encrypt_hybrid_block::<Sch, Aes, N>(&key(k)?, uid, n, d).map_err(|e| e.to_string())
    }
    pub fn dec_block_n<const N: usize>(k: &[u8], uid: &[u8], n: usize, d: &[u8]) -> Result<Vec<u8>, String> {
        decrypt_hybrid_block::<Sch, Aes, N>(&key(k)?, uid, n, d).map_err(|e| e.to_string())
    }
    pub fn enc_block(k: &[u8], uid: &[u8], n: usize, d: &[u8]) -> Result<Vec<u8>, String> {
        enc_block_n::<MAX>(k, uid, n, d)
    }
    pub fn dec_block(k: &[u8], uid: &[u8], n: usize, d: &[u8]) -> Result<Vec<u8>, String> {
        dec_block_n::<MAX>(k, uid, n, d)
    }
    /// What a metadata comes back as: empty parts are not kept
    pub fn expected(m: Option<&Meta>) -> Meta {
        match m {
            None => (vec![], None),
            Some((u, a)) => (u.clone(), a.clone().filter(|x| !x.is_empty())),
        }
    }
}
