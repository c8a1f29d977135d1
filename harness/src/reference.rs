//! Independent implementation of the byte formats, of GPSW and of the hybrid layer.
//! Shares nothing with /repo but the curve, hash and cipher crates.
use crate::rng::Rng;
use aes_gcm::aead::{Aead, NewAead, Payload};
use aes_gcm::{Aes256Gcm, Key, Nonce};
use cosmian_bls12_381::{pairing, G1Affine, G1Projective, G2Affine, G2Projective, Gt, Scalar};
use sha3::digest::{ExtendableOutput, Update, XofReader};
use sha3::Shake256;

#[derive(Clone, Debug, PartialEq)]
pub struct RMsk {
    pub t: Vec<Scalar>,
    pub y: Scalar,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RMpk {
    pub t: Vec<G1Affine>,
    pub y: Gt,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RMdk {
    pub t: Vec<G2Affine>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RUk {
    pub d: Vec<G2Affine>,
    pub attrs: Vec<u32>,
    pub m: Vec<Vec<Scalar>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RCt {
    pub gamma: Vec<u32>,
    pub e: Vec<G1Affine>,
    pub ep: Gt,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() - self.p < n {
            return None;
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Some(r)
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_be_bytes(self.take(4)?.try_into().ok()?))
    }
    pub fn sc(&mut self) -> Option<Scalar> {
        Option::from(Scalar::from_bytes(self.take(32)?.try_into().ok()?))
    }
    pub fn g1(&mut self) -> Option<G1Affine> {
        Option::from(G1Affine::from_compressed(self.take(48)?.try_into().ok()?))
    }
    pub fn g2(&mut self) -> Option<G2Affine> {
        Option::from(G2Affine::from_compressed(self.take(96)?.try_into().ok()?))
    }
    pub fn gt(&mut self) -> Option<Gt> {
        Option::from(Gt::from_compressed(self.take(288)?.try_into().ok()?))
    }
    pub fn end(&self) -> bool {
        self.p == self.b.len()
    }
}

fn put_u32(o: &mut Vec<u8>, n: usize) {
    o.extend_from_slice(&(n as u32).to_be_bytes());
}

impl RMsk {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut c = Cur::new(b);
        let n = c.u32()?;
        let t = (0..n).map(|_| c.sc()).collect::<Option<Vec<_>>>()?;
        let y = c.sc()?;
        c.end().then_some(RMsk { t, y })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put_u32(&mut o, self.t.len());
        for t in &self.t {
            o.extend_from_slice(&t.to_bytes());
        }
        o.extend_from_slice(&self.y.to_bytes());
        o
    }
    pub fn generate(rng: &mut Rng, n: usize) -> Self {
        RMsk { t: (0..n).map(|_| scalar(rng)).collect(), y: scalar(rng) }
    }
    pub fn public(&self) -> RMpk {
        RMpk {
            t: self.t.iter().map(|t| (G1Projective::generator() * t).into()).collect(),
            y: gt_gen() * self.y,
        }
    }
    pub fn delegation(&self) -> RMdk {
        RMdk {
            t: self
                .t
                .iter()
                .map(|t| (G2Projective::generator() * t.invert().unwrap()).into())
                .collect(),
        }
    }
    /// a key for any span program whose target is (1, ..., 1)
    pub fn key(&self, rng: &mut Rng, attrs: &[u32], m: &[Vec<Scalar>]) -> RUk {
        let cols = m[0].len();
        let mut u: Vec<Scalar> = (1..cols).map(|_| scalar(rng)).collect();
        let s = u.iter().fold(Scalar::zero(), |a, b| a + b);
        u.push(self.y - s);
        let d = m
            .iter()
            .zip(attrs)
            .map(|(row, a)| {
                let s = dot(row, &u);
                (G2Projective::generator() * (s * self.t[*a as usize].invert().unwrap())).into()
            })
            .collect();
        RUk { d, attrs: attrs.to_vec(), m: m.to_vec() }
    }
}

impl RMpk {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut c = Cur::new(b);
        let n = c.u32()?;
        let t = (0..n).map(|_| c.g1()).collect::<Option<Vec<_>>>()?;
        let y = c.gt()?;
        c.end().then_some(RMpk { t, y })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put_u32(&mut o, self.t.len());
        for t in &self.t {
            o.extend_from_slice(&t.to_compressed());
        }
        o.extend_from_slice(&self.y.to_compressed());
        o
    }
    pub fn encrypt(&self, rng: &mut Rng, m: &Gt, gamma: &[u32]) -> RCt {
        let s = scalar(rng);
        RCt {
            gamma: gamma.to_vec(),
            e: gamma.iter().map(|i| (self.t[*i as usize] * s).into()).collect(),
            ep: m + self.y * s,
        }
    }
}

impl RMdk {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut c = Cur::new(b);
        let n = c.u32()?;
        let t = (0..n).map(|_| c.g2()).collect::<Option<Vec<_>>>()?;
        c.end().then_some(RMdk { t })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put_u32(&mut o, self.t.len());
        for t in &self.t {
            o.extend_from_slice(&t.to_compressed());
        }
        o
    }
}

impl RUk {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut c = Cur::new(b);
        let n = c.u32()?;
        let d = (0..n).map(|_| c.g2()).collect::<Option<Vec<_>>>()?;
        let rows = c.u32()?;
        let cols = c.u32()?;
        if rows != n {
            return None;
        }
        let attrs = (0..rows).map(|_| c.u32()).collect::<Option<Vec<_>>>()?;
        let m = (0..rows)
            .map(|_| (0..cols).map(|_| c.sc()).collect::<Option<Vec<_>>>())
            .collect::<Option<Vec<_>>>()?;
        c.end().then_some(RUk { d, attrs, m })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put_u32(&mut o, self.d.len());
        for t in &self.d {
            o.extend_from_slice(&t.to_compressed());
        }
        put_u32(&mut o, self.m.len());
        put_u32(&mut o, self.m[0].len());
        for a in &self.attrs {
            o.extend_from_slice(&a.to_be_bytes());
        }
        for r in &self.m {
            for s in r {
                o.extend_from_slice(&s.to_bytes());
            }
        }
        o
    }
    pub fn decrypt(&self, ct: &RCt) -> Option<Gt> {
        let mut rows = vec![];
        let mut sel = vec![];
        for (i, a) in self.attrs.iter().enumerate() {
            if let Some(j) = ct.gamma.iter().position(|g| g == a) {
                rows.push(self.m[i].clone());
                sel.push((i, j));
            }
        }
        let coefs = solve(&rows)?;
        let mut acc = Gt::identity();
        for ((i, j), c) in sel.iter().zip(&coefs) {
            acc = acc + pairing(&(ct.e[*j] * c).into(), &self.d[*i]);
        }
        Some(ct.ep - acc)
    }
}

impl RCt {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut c = Cur::new(b);
        let n = c.u32()?;
        let gamma = (0..n).map(|_| c.u32()).collect::<Option<Vec<_>>>()?;
        let k = c.u32()?;
        if k != n {
            return None;
        }
        let e = (0..n).map(|_| c.g1()).collect::<Option<Vec<_>>>()?;
        let ep = c.gt()?;
        c.end().then_some(RCt { gamma, e, ep })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put_u32(&mut o, self.gamma.len());
        for a in &self.gamma {
            o.extend_from_slice(&a.to_be_bytes());
        }
        put_u32(&mut o, self.e.len());
        for t in &self.e {
            o.extend_from_slice(&t.to_compressed());
        }
        o.extend_from_slice(&self.ep.to_compressed());
        o
    }
}

pub fn gt_gen() -> Gt {
    pairing(&G1Affine::generator(), &G2Affine::generator())
}

pub fn scalar(rng: &mut Rng) -> Scalar {
    let mut b = [0u8; 64];
    b.copy_from_slice(&rng.bytes(64));
    Scalar::from_bytes_wide(&b)
}

pub fn int(i: i64) -> Scalar {
    let s = Scalar::from(i.unsigned_abs());
    if i < 0 {
        -s
    } else {
        s
    }
}

pub fn dot(a: &[Scalar], b: &[Scalar]) -> Scalar {
    a.iter().zip(b).fold(Scalar::zero(), |s, (x, y)| s + x * y)
}

pub fn random_gt(rng: &mut Rng) -> Gt {
    gt_gen() * scalar(rng)
}

/// coefficients combining the rows to (1, ..., 1), by elimination on the
/// augmented system rows^T . x = 1
pub fn solve(rows: &[Vec<Scalar>]) -> Option<Vec<Scalar>> {
    solve_for(rows, &vec![Scalar::one(); rows.first()?.len()])
}

pub fn solve_for(rows: &[Vec<Scalar>], target: &[Scalar]) -> Option<Vec<Scalar>> {
    let n = rows.len();
    let k = target.len();
    // equations[c] = coefficients of the n unknowns, then the right member
    let mut eq: Vec<Vec<Scalar>> = (0..k)
        .map(|c| rows.iter().map(|r| r[c]).chain(std::iter::once(target[c])).collect())
        .collect();
    let mut piv = vec![];
    let mut top = 0;
    for col in 0..n {
        let Some(p) = (top..k).find(|r| eq[*r][col] != Scalar::zero()) else { continue };
        eq.swap(top, p);
        let inv = eq[top][col].invert().unwrap();
        for x in &mut eq[top] {
            *x *= inv;
        }
        for r in 0..k {
            if r != top && eq[r][col] != Scalar::zero() {
                let f = eq[r][col];
                let src = eq[top].clone();
                for (x, y) in eq[r].iter_mut().zip(&src) {
                    *x -= f * y;
                }
            }
        }
        piv.push(col);
        top += 1;
    }
    if eq[top..].iter().any(|r| r[n] != Scalar::zero()) {
        return None;
    }
    let mut x = vec![Scalar::zero(); n];
    for (r, c) in piv.iter().enumerate() {
        x[*c] = eq[r][n];
    }
    Some(x)
}

pub fn shake(gt: &Gt, n: usize) -> Vec<u8> {
    let mut h = Shake256::default();
    h.update(&gt.to_compressed());
    let mut out = vec![0; n];
    h.finalize_xof().read(&mut out);
    out
}

pub fn aes_enc(key: &[u8], nonce: &[u8], data: &[u8], aad: &[u8]) -> Vec<u8> {
    Aes256Gcm::new(Key::from_slice(key))
        .encrypt(Nonce::from_slice(nonce), Payload { msg: data, aad })
        .expect("reference: aes")
}
pub fn aes_dec(key: &[u8], nonce: &[u8], data: &[u8], aad: &[u8]) -> Option<Vec<u8>> {
    Aes256Gcm::new(Key::from_slice(key))
        .decrypt(Nonce::from_slice(nonce), Payload { msg: data, aad })
        .ok()
}

pub fn block_aad(uid: &[u8], number: u64) -> Vec<u8> {
    let mut a = uid.to_vec();
    a.extend_from_slice(&number.to_le_bytes());
    a
}
pub fn block_enc(key: &[u8], nonce: &[u8; 12], uid: &[u8], number: u64, data: &[u8]) -> Vec<u8> {
    let mut o = nonce.to_vec();
    o.extend(aes_enc(key, nonce, data, &block_aad(uid, number)));
    o
}
pub fn block_dec(key: &[u8], uid: &[u8], number: u64, b: &[u8]) -> Option<Vec<u8>> {
    if b.len() < 28 {
        return None;
    }
    aes_dec(key, &b[..12], &b[12..], &block_aad(uid, number))
}

pub fn meta_bytes(uid: &[u8], ad: Option<&[u8]>) -> Vec<u8> {
    if uid.is_empty() && ad.map_or(true, <[u8]>::is_empty) {
        return vec![];
    }
    let mut o = vec![];
    put_u32(&mut o, uid.len());
    o.extend_from_slice(uid);
    o.extend_from_slice(ad.unwrap_or(&[]));
    o
}
pub fn meta_parse(b: &[u8]) -> Option<(Vec<u8>, Option<Vec<u8>>)> {
    if b.is_empty() {
        return Some((vec![], None));
    }
    let mut c = Cur::new(b);
    let n = c.u32()? as usize;
    let uid = c.take(n)?.to_vec();
    let rest = &b[c.p..];
    Some((uid, (!rest.is_empty()).then(|| rest.to_vec())))
}

pub struct RHeader {
    pub ct: Vec<u8>,
    pub meta: Option<(Vec<u8>, Vec<u8>)>,
}
pub fn header_parse(b: &[u8]) -> Option<RHeader> {
    let mut c = Cur::new(b);
    let n = c.u32()? as usize;
    let ct = c.take(n)?.to_vec();
    if c.end() {
        return Some(RHeader { ct, meta: None });
    }
    let nonce = c.take(12)?.to_vec();
    let n = c.u32()? as usize;
    let m = c.take(n)?.to_vec();
    c.end().then_some(RHeader { ct, meta: Some((nonce, m)) })
}
pub fn header_bytes(ct: &[u8], key: &[u8], meta: Option<(&[u8; 12], &[u8])>) -> Vec<u8> {
    let mut o = vec![];
    put_u32(&mut o, ct.len());
    o.extend_from_slice(ct);
    if let Some((nonce, m)) = meta {
        o.extend_from_slice(nonce);
        let e = aes_enc(key, nonce, m, &[]);
        put_u32(&mut o, e.len());
        o.extend(e);
    }
    o
}

/// A span program, with target (1, ..., 1), for a formula over values, built by
/// a recursion of its own. Leaves are values; Or over sets.
pub fn msp(v: &crate::model::V) -> (Vec<u32>, Vec<Vec<Scalar>>) {
    // shares as linear forms: column 0 is the secret, the others are random
    fn rec(
        v: &crate::model::V,
        share: Vec<Scalar>,
        cols: &mut usize,
        out: &mut Vec<(u32, Vec<Scalar>)>,
    ) {
        use crate::model::V;
        match v {
            V::Any(s) => {
                for x in s {
                    out.push((*x, share.clone()));
                }
            }
            V::Or(a, b) => {
                rec(a, share.clone(), cols, out);
                rec(b, share, cols, out);
            }
            V::And(a, b) => {
                // right gets a fresh r, left gets share - r
                let mut r = vec![Scalar::zero(); *cols + 1];
                r[*cols] = Scalar::one();
                let mut l = share;
                l.resize(*cols + 1, Scalar::zero());
                l[*cols] = -Scalar::one();
                *cols += 1;
                rec(a, l, cols, out);
                rec(b, r, cols, out);
            }
        }
    }
    let mut cols = 1;
    let mut out = vec![];
    rec(v, vec![Scalar::one()], &mut cols, &mut out);
    // change of basis: (1, 0, ..., 0) becomes (1, ..., 1)
    let mut attrs = vec![];
    let mut m = vec![];
    for (a, mut row) in out {
        row.resize(cols, Scalar::zero());
        let first = row[0];
        for x in row.iter_mut().skip(1) {
            *x += first;
        }
        attrs.push(a);
        m.push(row);
    }
    (attrs, m)
}
