//! Serialized objects of every kind, where each element lies in them, and their parsers.
use crate::lib_api::{self as la, dec, enc, hy, Scheme};
use crate::model::*;
use crate::props::Auth;
use crate::reference::*;
use crate::rng::Rng;
use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar as LScalar;
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_abe_gpsw::core::msp::{policy_to_msp, MonotoneSpanProgram};
use cosmian_bls12_381::{G1Affine, G2Affine};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Msk, Mpk, Mdk, Uk, Ct, MspI, MspS, VecI, VecS, VecG1, VecG2, VecGt, S, G1, G2, Gt, U32, I32,
}
use Kind::*;

pub const KINDS: [Kind; 18] =
    [Msk, Mpk, Mdk, Uk, Ct, MspI, MspS, VecI, VecS, VecG1, VecG2, VecGt, S, G1, G2, Gt, U32, I32];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum El {
    Count,
    Int,
    S,
    G1,
    G2,
    Gt,
}
impl El {
    pub fn size(self) -> usize {
        match self {
            El::Count | El::Int => 4,
            El::S => 32,
            El::G1 => 48,
            El::G2 => 96,
            El::Gt => 288,
        }
    }
}

pub enum Obj<S: Scheme = la::Sch> {
    Msk(S::MasterPrivateKey),
    Mpk(S::MasterPublicKey),
    Mdk(S::MasterPublicDelegationKey),
    Uk(S::UserDecryptionKey),
    Ct(S::CipherText),
    MspI(MonotoneSpanProgram<i32>),
    Other(usize),
}

/// Reads with the code under test; what is read is serialized again
pub fn parse<S: Scheme>(k: Kind, b: &[u8]) -> Result<Obj<S>, String> {
    fn e(e: impl std::fmt::Display) -> String {
        e.to_string()
    }
    fn other<S: Scheme, T: AsBytes>(b: &[u8]) -> Result<Obj<S>, String> {
        let t = T::try_from_bytes(b).map_err(e)?;
        t.try_into_bytes().map_err(e)?;
        Ok(Obj::Other(t.len_bytes()))
    }
    Ok(match k {
        Msk => Obj::Msk(dec(b).map_err(e)?),
        Mpk => Obj::Mpk(dec(b).map_err(e)?),
        Mdk => Obj::Mdk(dec(b).map_err(e)?),
        Uk => Obj::Uk(dec(b).map_err(e)?),
        Ct => Obj::Ct(dec(b).map_err(e)?),
        MspI => Obj::MspI(dec(b).map_err(e)?),
        MspS => other::<_, MonotoneSpanProgram<LScalar>>(b)?,
        VecI => other::<_, Vec<u32>>(b)?,
        VecS => other::<_, Vec<LScalar>>(b)?,
        VecG1 => other::<_, Vec<G1Affine>>(b)?,
        VecG2 => other::<_, Vec<G2Affine>>(b)?,
        VecGt => other::<_, Vec<cosmian_bls12_381::Gt>>(b)?,
        Kind::S => other::<_, LScalar>(b)?,
        G1 => other::<_, G1Affine>(b)?,
        G2 => other::<_, G2Affine>(b)?,
        Gt => other::<_, cosmian_bls12_381::Gt>(b)?,
        U32 => other::<_, u32>(b)?,
        I32 => other::<_, i32>(b)?,
    })
}

pub fn reserialize<S: Scheme>(o: &Obj<S>) -> Result<Vec<u8>, String> {
    let r = match o {
        Obj::Msk(x) => x.try_into_bytes(),
        Obj::Mpk(x) => x.try_into_bytes(),
        Obj::Mdk(x) => x.try_into_bytes(),
        Obj::Uk(x) => x.try_into_bytes(),
        Obj::Ct(x) => x.try_into_bytes(),
        Obj::MspI(x) => x.try_into_bytes(),
        Obj::Other(_) => Ok(vec![]),
    };
    r.map_err(|e| e.to_string())
}

fn count(b: &[u8], at: usize) -> usize {
    u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize
}

/// Elements of a valid object, in order
pub fn layout(k: Kind, b: &[u8]) -> Vec<(usize, El)> {
    layout_in::<la::Sch>(k, b)
}
pub fn layout_in<S: Scheme>(k: Kind, b: &[u8]) -> Vec<(usize, El)> {
    let mut v = vec![];
    let mut p = 0;
    let total = b.len();
    let put = |v: &mut Vec<(usize, El)>, p: &mut usize, e: El, n: usize| {
        let e = if S::CLEAR && matches!(e, El::G1 | El::G2 | El::Gt) { El::S } else { e };
        for _ in 0..n {
            assert!(*p < total, "layout");
            v.push((*p, e));
            *p += e.size();
        }
    };
    let vec = |v: &mut Vec<(usize, El)>, p: &mut usize, e: El| {
        let n = count(b, *p);
        put(v, p, El::Count, 1);
        put(v, p, e, n);
    };
    match k {
        Msk => {
            vec(&mut v, &mut p, El::S);
            put(&mut v, &mut p, El::S, 1);
        }
        Mpk => {
            vec(&mut v, &mut p, El::G1);
            put(&mut v, &mut p, El::Gt, 1);
        }
        Mdk | VecG2 => vec(&mut v, &mut p, El::G2),
        Uk | MspI | MspS => {
            if k == Uk {
                vec(&mut v, &mut p, El::G2);
            }
            let (r, c) = (count(b, p), count(b, p + 4));
            put(&mut v, &mut p, El::Count, 2);
            put(&mut v, &mut p, El::Int, r);
            put(&mut v, &mut p, if k == MspI { El::Int } else { El::S }, r * c);
        }
        Ct => {
            vec(&mut v, &mut p, El::Int);
            vec(&mut v, &mut p, El::G1);
            put(&mut v, &mut p, El::Gt, 1);
        }
        VecI => vec(&mut v, &mut p, El::Int),
        VecS => vec(&mut v, &mut p, El::S),
        VecG1 => vec(&mut v, &mut p, El::G1),
        VecGt => vec(&mut v, &mut p, El::Gt),
        Kind::S => put(&mut v, &mut p, El::S, 1),
        G1 => put(&mut v, &mut p, El::G1, 1),
        G2 => put(&mut v, &mut p, El::G2, 1),
        Gt => put(&mut v, &mut p, El::Gt, 1),
        U32 | I32 => put(&mut v, &mut p, El::Int, 1),
    }
    assert_eq!(p, b.len(), "layout of {k:?}");
    v
}

/// One authority with some of its objects, for all kinds
pub struct Bench<S: Scheme = la::Sch> {
    pub a: Auth<S>,
    pub f: F,
    pub key: S::UserDecryptionKey,
    pub l: Vec<At>,
    pub msg: S::PlainText,
    pub ct: S::CipherText,
    pub header: (Vec<u8>, Vec<u8>),
    pub meta: hy::Meta,
    pub block: Vec<u8>,
    pub objects: Vec<(Kind, Vec<u8>)>,
}

pub fn bench(rng: &mut Rng, p: &Profile) -> Result<Bench, String> {
    bench_in(rng, p)
}
pub fn bench_in<S: Scheme>(rng: &mut Rng, p: &Profile) -> Result<Bench<S>, String> {
    let w = gen_world(rng, p);
    let a = Auth::<S>::make(w)?;
    let f = gen_formula(rng, &a.w.m, 8);
    let key = if rng.chance(1, 3) {
        let k = a.key(&f)?;
        a.eng
            .delegate_user_key(&a.w.policy, &a.mdk, &k, &abe_policy::AccessPolicy::All)
            .map_err(|e| e.to_string())?
    } else {
        a.key(&f)?
    };
    let l = gen_sat(rng, &a.w.m, &f);
    let msg = a.message()?;
    let ct = a.encrypt(&l, &msg)?;
    let n = rng.below(30);
    let meta = (rng.bytes(n), rng.chance(1, 2).then(|| rng.bytes(1 + n)));
    let header = hy::encrypt_header_in::<S>(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&l), Some(&meta)).map_err(|e| e.to_string())?;
    let size = rng.range(1, 80);
    let block = hy::enc_block(&header.0, &meta.0, 3, &rng.bytes(size))?;
    let msp = policy_to_msp(&a.w.policy, &a.w.m.access(&f)).map_err(|e| e.to_string())?;
    let n = rng.range(1, 6);
    let mut objects = vec![
        (Msk, enc(&a.msk)),
        (Mpk, enc(&a.mpk)),
        (Mdk, enc(&a.mdk)),
        (Uk, enc(&key)),
        (Ct, enc(&ct)),
        (MspI, enc(&msp)),
        (MspS, enc(&MonotoneSpanProgram::<LScalar>::from(&msp))),
    ];
    if S::CLEAR {
        // the other kinds are those of the real groups
        return Ok(Bench { a, f, key, l, msg, ct, header, meta, block, objects });
    }
    let ints: Vec<u8> = (0..n).flat_map(|_| (rng.u64() as u32).to_be_bytes()).collect();
    let counted = |b: Vec<u8>| [&(n as u32).to_be_bytes()[..], &b].concat();
    objects.push((U32, ints[..4].to_vec()));
    objects.push((I32, ints[..4].to_vec()));
    objects.push((VecI, counted(ints)));
    let ss: Vec<_> = (0..n).map(|_| scalar(rng)).collect();
    objects.push((Kind::S, ss[0].to_bytes().to_vec()));
    objects.push((VecS, counted(ss.iter().flat_map(|s| s.to_bytes()).collect())));
    let g: Vec<G1Affine> = ss.iter().map(|s| (G1Affine::generator() * s).into()).collect();
    objects.push((G1, g[0].to_compressed().to_vec()));
    objects.push((VecG1, counted(g.iter().flat_map(|s| s.to_compressed()).collect())));
    let g: Vec<G2Affine> = ss.iter().map(|s| (G2Affine::generator() * s).into()).collect();
    objects.push((G2, g[0].to_compressed().to_vec()));
    objects.push((VecG2, counted(g.iter().flat_map(|s| s.to_compressed()).collect())));
    let g: Vec<cosmian_bls12_381::Gt> = ss.iter().map(|s| gt_gen() * s).collect();
    objects.push((Gt, g[0].to_compressed().to_vec()));
    objects.push((VecGt, counted(g.iter().flat_map(|s| s.to_compressed()).collect())));
    Ok(Bench { a, f, key, l, msg, ct, header, meta, block, objects })
}

impl<S: Scheme> Bench<S> {
    pub fn of(&self, k: Kind) -> &[u8] {
        &self.objects.iter().find(|o| o.0 == k).expect("kind").1
    }
}
