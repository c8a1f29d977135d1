//! The scheme over a transparent bilinear map, whose groups are the integers
//! modulo the group order, an element being its own exponent: the code of the
//! scheme, which is generic, runs unchanged with every random value and every
//! share in the open, and a thousand times faster. The arithmetic of the
//! scalars and their generation stay those of the library.
use crate::lib_api::*;
use crate::{model::World, props::Auth, rng::Rng};
use cosmian_abe_gpsw::core::bilinear_map::{
    bls12_381::{Bls12_381, Scalar as LScalar},
    BilinearMap,
};
use cosmian_abe_gpsw::core::gpsw::{AsBytes, Gpsw};
use cosmian_abe_gpsw::error::FormatErr;
use cosmian_bls12_381::Scalar;
use rand_core::{CryptoRng, RngCore};

#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct Clear;

#[derive(Debug, Clone, PartialEq)]
pub struct E(pub LScalar);

impl AsBytes for E {
    fn try_into_bytes(&self) -> Result<Vec<u8>, FormatErr> {
        self.0.try_into_bytes()
    }
    fn try_from_bytes(b: &[u8]) -> Result<Self, FormatErr> {
        LScalar::try_from_bytes(b).map(E)
    }
    fn len_bytes(&self) -> usize {
        32
    }
}

fn mul(a: &LScalar, b: &LScalar) -> LScalar {
    a.clone() * b
}

impl BilinearMap for Clear {
    type Scalar = LScalar;
    type G1 = E;
    type G2 = E;
    type G3 = E;
    type Gt = E;
    const ZERO: LScalar = Bls12_381::ZERO;
    const ONE: LScalar = Bls12_381::ONE;

    fn description() -> String {
        "transparent".into()
    }
    fn gen_rand_scalar_inner<R: CryptoRng + RngCore>(&self, rng: &mut R) -> Result<LScalar, FormatErr> {
        Bls12_381.gen_rand_scalar_inner(rng)
    }
    fn gen_rand_gt_inner<R: CryptoRng + RngCore>(&self, rng: &mut R) -> Result<E, FormatErr> {
        Bls12_381.gen_rand_scalar_inner(rng).map(E)
    }
    fn msg_to_scalar(&self, msg: &[u8]) -> Result<LScalar, FormatErr> {
        Bls12_381.msg_to_scalar(msg)
    }
    fn g1_gen_exp(&self, x: &LScalar) -> (E, E) {
        (E(x.clone()), E(x.clone()))
    }
    fn g3_gen_exp(&self, x: &LScalar) -> E {
        E(x.clone())
    }
    fn g3_mul(&self, a: &E, b: &E) -> (E, E) {
        let r = E(a.0.clone() + &b.0);
        (r.clone(), r)
    }
    fn g3_exp(&self, a: &E, x: &LScalar) -> E {
        E(mul(&a.0, x))
    }
    fn g2_gen_exp(&self, x: &LScalar) -> E {
        E(x.clone())
    }
    fn g2_exp(&self, a: &E, x: &LScalar) -> E {
        E(mul(&a.0, x))
    }
    fn gt_gen_exp(&self, x: &LScalar) -> E {
        E(x.clone())
    }
    fn gt_exp(&self, a: &E, x: &LScalar) -> E {
        E(mul(&a.0, x))
    }
    fn gt_mul(&self, a: &E, b: &E) -> E {
        E(a.0.clone() + &b.0)
    }
    fn gt_div(&self, a: &E, b: &E) -> E {
        E(a.0.clone() - &b.0)
    }
    fn prod_gt_exp(&self, d: &[&E], e: &[&E], a: &[&LScalar]) -> E {
        // as the real one, over the shortest of the three
        let mut s = Self::ZERO;
        for ((d, e), a) in d.iter().zip(e).zip(a) {
            s = s + &mul(&mul(&d.0, &e.0), a);
        }
        E(s)
    }
    fn g3_to_g1(v: &E) -> E {
        v.clone()
    }
}

pub type Clr = Gpsw<Clear>;

impl Scheme for Clr {
    const CLEAR: bool = true;
    fn wide(_: &mut Rng, w: World, _: &[u32]) -> Auth<Self> {
        Auth::make(w).expect("master keys of many values")
    }
}

/// What the bytes of the objects hold
struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u32(&mut self) -> Option<usize> {
        Some(u32::from_be_bytes(self.take(4)?.try_into().ok()?) as usize)
    }
    fn el(&mut self) -> Option<Scalar> {
        Option::from(Scalar::from_bytes(self.take(32)?.try_into().ok()?))
    }
    fn els(&mut self) -> Option<Vec<Scalar>> {
        let n = self.u32()?;
        (0..n).map(|_| self.el()).collect()
    }
    fn end<T>(self, t: T) -> Option<T> {
        self.0.is_empty().then_some(t)
    }
}

/// master private or public key: components, master secret
pub fn master(b: &[u8]) -> Option<(Vec<Scalar>, Scalar)> {
    let mut c = Cur(b);
    let r = (c.els()?, c.el()?);
    c.end(r)
}
pub fn delegation(b: &[u8]) -> Option<Vec<Scalar>> {
    let mut c = Cur(b);
    let r = c.els()?;
    c.end(r)
}
#[derive(Clone)]
pub struct CKey {
    pub d: Vec<Scalar>,
    pub attrs: Vec<u32>,
    pub m: Vec<Vec<Scalar>>,
}
pub fn key(b: &[u8]) -> Option<CKey> {
    let mut c = Cur(b);
    let d = c.els()?;
    let (r, n) = (c.u32()?, c.u32()?);
    let attrs = (0..r).map(|_| c.u32().map(|x| x as u32)).collect::<Option<Vec<_>>>()?;
    let m = (0..r).map(|_| (0..n).map(|_| c.el()).collect()).collect::<Option<Vec<Vec<_>>>>()?;
    c.end(CKey { d, attrs, m })
}
pub struct CCt {
    pub gamma: Vec<u32>,
    pub e: Vec<Scalar>,
    pub ep: Scalar,
}
pub fn cipher(b: &[u8]) -> Option<CCt> {
    let mut c = Cur(b);
    let n = c.u32()?;
    let gamma = (0..n).map(|_| c.u32().map(|x| x as u32)).collect::<Option<Vec<_>>>()?;
    let r = CCt { gamma, e: c.els()?, ep: c.el()? };
    c.end(r)
}

/// Reduced rows, by elimination over the field
pub struct Basis {
    rows: Vec<(usize, Vec<Scalar>)>,
}
impl Basis {
    pub fn new() -> Self {
        Basis { rows: vec![] }
    }
    pub fn rank(&self) -> usize {
        self.rows.len()
    }
    fn reduce(&self, v: &mut [Scalar]) {
        for (p, r) in &self.rows {
            let c = v[*p];
            if c != Scalar::zero() {
                for (x, y) in v[*p..].iter_mut().zip(&r[*p..]) {
                    *x -= c * y;
                }
            }
        }
    }
    /// false when the vector is a combination of those already there
    pub fn add(&mut self, mut v: Vec<Scalar>) -> bool {
        self.reduce(&mut v);
        let Some(p) = v.iter().position(|x| *x != Scalar::zero()) else { return false };
        let i = v[p].invert().unwrap();
        v.iter_mut().for_each(|x| *x *= i);
        self.rows.push((p, v));
        true
    }
    pub fn holds(&self, v: &[Scalar]) -> bool {
        let mut v = v.to_vec();
        self.reduce(&mut v);
        v.iter().all(|x| *x == Scalar::zero())
    }
}
