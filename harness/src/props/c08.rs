use super::*;
use crate::ffi;
use crate::objects::*;
use crate::reference::*;
use cosmian_bls12_381::{G1Affine, G2Affine, Gt};
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    workers: 8,
    rule: "every position of a scalar or group element in serialized objects of every kind (keys, cipher texts, span programs, vectors, elements, headers) replaced by invalid elements built by arithmetic of the monitor (order and multiples, non-canonical coordinates, wrong flags, points off the curve or off the subgroup, torus elements off the target group, small orders, neighbours of the valid element just read); the parser must fail, and accept the object before the change; distinct = (kind, position class, defect)",
    floors: &[
        ("invalid scalars", 3000), ("invalid elements of G1", 2000), ("invalid elements of G2", 3000), ("invalid elements of Gt", 400),
        ("valid objects accepted", 500), ("headers refused", 100), ("close to the valid one", 1000), ("keys refused by the C functions", 100),
        ("several invalid elements", 500), ("invalid elements in wide objects", 1000), ("off the subgroup of G1", 100), ("off the subgroup of G2", 100), ("off the target group", 100),
    ],
    assumptions: &["cosmian_bls12_381 tells whether a point it decompressed is in the subgroup; invalid elements are built from that and from integer arithmetic of the monitor"],
};

const R: &str = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
const P: &str = "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab";

/// sum of big-endian integers of the same size, when it fits
fn add(a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![0; a.len()];
    let mut c = 0u16;
    for i in (0..a.len()).rev() {
        c += u16::from(a[i]) + u16::from(b[i]);
        o[i] = c as u8;
        c >>= 8;
    }
    (c == 0).then_some(o)
}

pub fn bad_scalar(rng: &mut Rng, valid: &[u8]) -> (&'static str, Vec<u8>) {
    let r = hex::decode(R).unwrap();
    let small = |n: u64| {
        let mut b = vec![0; 24];
        b.extend_from_slice(&n.to_be_bytes());
        b
    };
    let mut le = valid.to_vec();
    le.reverse();
    let (w, mut v) = match rng.below(8) {
        0 => ("order", r),
        1 => ("order plus one", add(&r, &small(1)).unwrap()),
        2 => ("order plus a small integer", add(&r, &small(rng.u64())).unwrap()),
        3 | 4 => ("same residue", add(&r, &le).unwrap()),
        5 => ("twice the order", add(&r, &r).unwrap()),
        6 => ("all ones", vec![0xff; 32]),
        _ => {
            let mut b = rng.bytes(32);
            b[0] |= 0x80;
            ("high bit", b)
        }
    };
    v.reverse();
    (w, v)
}

/// adds p to one coordinate of 48 bytes, under the flags of the first byte
fn plus_p(v: &mut [u8], coord: usize) -> bool {
    let p = hex::decode(P).unwrap();
    let flags = if coord == 0 { v[0] & 0xe0 } else { 0 };
    let mut x = v[48 * coord..48 * (coord + 1)].to_vec();
    x[0] &= if coord == 0 { 0x1f } else { 0xff };
    match add(&x, &p) {
        Some(mut y) if coord > 0 || y[0] & 0xe0 == 0 => {
            y[0] |= flags;
            v[48 * coord..48 * (coord + 1)].copy_from_slice(&y);
            true
        }
        _ => false,
    }
}

fn unchecked(e: El, b: &[u8]) -> Option<bool> {
    // on the curve, whether in the subgroup
    match e {
        El::G1 => Option::<G1Affine>::from(G1Affine::from_compressed_unchecked(b.try_into().unwrap())).map(|p| p.is_torsion_free().into()),
        _ => Option::<G2Affine>::from(G2Affine::from_compressed_unchecked(b.try_into().unwrap())).map(|p| p.is_torsion_free().into()),
    }
}

/// Changes a few bytes, at the end, the beginning or anywhere, and no flag
fn near(rng: &mut Rng, v: &mut [u8]) {
    let n = v.len();
    let size = *rng.pick(&[1, 1, 2, 4, 8, 16, 32, n / 4, n / 2]);
    let from = match rng.below(4) {
        0 | 1 => n - size,
        2 => 1,
        _ => rng.range(1, n - size),
    };
    if size == 1 {
        v[from] ^= 1 << rng.below(8);
    } else {
        let b = rng.bytes(size);
        v[from..from + size].copy_from_slice(&b);
    }
}

pub fn bad_point(rng: &mut Rng, e: El, valid: &[u8]) -> (&'static str, Vec<u8>) {
    let n = e.size();
    loop {
        let mut v = valid.to_vec();
        match rng.below(13) {
            9.. => {
                near(rng, &mut v);
                match unchecked(e, &v) {
                    Some(false) if v != valid => return ("off the subgroup, close to the valid one", v),
                    _ => continue,
                }
            }
            0 => {
                v[0] &= 0x7f;
                return ("compression flag clear", v);
            }
            1 => {
                v[0] |= 0x40;
                if v.iter().skip(1).all(|b| *b == 0) && v[0] & 0x3f == 0 {
                    continue;
                }
                return ("infinity flag on a finite point", v);
            }
            2 => {
                v.fill(0);
                v[0] = 0xe0;
                return ("infinity with the sort flag", v);
            }
            3 => {
                v.fill(0);
                v[0] = 0xc0;
                let p = rng.range(1, n - 1);
                v[p] = 1 << rng.below(8);
                return ("infinity with other bits", v);
            }
            4 => {
                // the same point written otherwise
                let coord = rng.below(n / 48);
                if v[0] & 0x40 == 0 && plus_p(&mut v, coord) {
                    return ("non-canonical coordinate", v);
                }
                // the point of coordinate p (0), refused whatever the curve
                v.fill(0);
                let p = hex::decode(P).unwrap();
                v[n - 48..].copy_from_slice(&p);
                v[0] |= 0x80;
                return ("coordinate equal to the modulus", v);
            }
            5 => {
                let coord = rng.below(n / 48);
                v[48 * coord..48 * (coord + 1)].fill(0xff);
                if coord == 0 {
                    v[0] = 0x9f | (v[0] & 0x20);
                }
                return ("coordinate too large", v);
            }
            6 => {
                // all zero, flags apart
                v.fill(0);
                return ("zeros", v);
            }
            _ => {
                // random coordinates
                let b = rng.bytes(n);
                v = b;
                for c in 0..n / 48 {
                    v[48 * c] &= 0x0f;
                }
                v[0] |= 0x80 | if rng.chance(1, 2) { 0x20 } else { 0 };
                match unchecked(e, &v) {
                    None => return ("off the curve", v),
                    Some(false) => return ("off the subgroup", v),
                    Some(true) => {}
                }
            }
        }
    }
}

pub fn bad_gt(rng: &mut Rng, valid: &[u8]) -> (&'static str, Vec<u8>) {
    loop {
        let mut v = valid.to_vec();
        match rng.below(11) {
            8.. => {
                near(rng, &mut v);
                if v == valid {
                    continue;
                }
                let b: [u8; 288] = v[..].try_into().unwrap();
                let t: Option<Gt> = Option::from(Gt::from_compressed_unchecked(&b));
                return (if t.is_some() { "off the target group, close to the valid one" } else { "off the torus, close to the valid one" }, v);
            }
            0 => {
                v[0] &= 0x7f;
                return ("compression flag clear", v);
            }
            1 => {
                // the opposite of the conjugate: of order 2r
                v[0] ^= 0x40;
                return ("sort flag changed", v);
            }
            2 => {
                v = Gt::identity().to_compressed().to_vec();
                v[0] ^= 0x40;
                return ("minus one", v);
            }
            3 => {
                let c = rng.below(6);
                v[48 * c..48 * (c + 1)].fill(0xff);
                if c == 0 {
                    v[0] = 0x9f;
                }
                return ("coordinate too large", v);
            }
            4 => {
                v.fill(0);
                return ("zeros", v);
            }
            5 => {
                // one coordinate of another
                let o = random_gt(rng).to_compressed();
                let c = rng.range(1, 5);
                v[48 * c..48 * (c + 1)].copy_from_slice(&o[48 * c..48 * (c + 1)]);
                let b: [u8; 288] = v[..].try_into().unwrap();
                let t: Option<Gt> = Option::from(Gt::from_compressed_unchecked(&b));
                return (if t.is_some() { "off the target group" } else { "off the torus" }, v);
            }
            _ => {
                v = rng.bytes(288);
                for c in 0..6 {
                    v[48 * c] &= 0x0f;
                }
                v[0] |= 0x80 | if rng.chance(1, 2) { 0x40 } else { 0 };
                let b: [u8; 288] = v[..].try_into().unwrap();
                let t: Option<Gt> = Option::from(Gt::from_compressed_unchecked(&b));
                return (if t.is_some() { "off the target group" } else { "off the torus" }, v);
            }
        }
    }
}

fn bad(rng: &mut Rng, e: El, valid: &[u8]) -> (&'static str, Vec<u8>) {
    match e {
        El::S => bad_scalar(rng, valid),
        El::G1 | El::G2 => bad_point(rng, e, valid),
        El::Gt => bad_gt(rng, valid),
        _ => unreachable!(),
    }
}

/// Two elements off the subgroup whose sum is null
fn opposite(rng: &mut Rng, e: El, valid: &[u8]) -> (Vec<u8>, Vec<u8>) {
    loop {
        let (w, x) = bad_point(rng, e, valid);
        if w.starts_with("off the subgroup") {
            let mut y = x.clone();
            y[0] ^= 0x20;
            return (x, y);
        }
    }
}

/// Several invalid elements at once, chosen for sums or differences of them to be valid
fn several(ctx: &mut Ctx, rng: &mut Rng, k: Kind, o: &[u8], els: &[(usize, El)]) -> bool {
    for e in [El::G1, El::G2] {
        let at: Vec<usize> = els.iter().filter(|x| x.1 == e).map(|x| x.0).collect();
        if at.len() < 2 {
            continue;
        }
        for round in 0..3 {
            let (x, y) = opposite(rng, e, &o[at[0]..at[0] + e.size()]);
            let mut v = o.to_vec();
            let what = match round {
                0 => {
                    let i = rng.below(at.len());
                    let j = (i + rng.range(1, at.len() - 1)) % at.len();
                    v[at[i]..at[i] + e.size()].copy_from_slice(&x);
                    v[at[j]..at[j] + e.size()].copy_from_slice(&y);
                    "two opposite elements off the subgroup"
                }
                1 => {
                    v[at[0]..at[0] + e.size()].copy_from_slice(&x);
                    v[at[1]..at[1] + e.size()].copy_from_slice(&x);
                    "twice the same element off the subgroup"
                }
                _ => {
                    for a in &at {
                        v[*a..*a + e.size()].copy_from_slice(&x);
                    }
                    "the same element off the subgroup everywhere"
                }
            };
            ctx.journal(what);
            ctx.count("several invalid elements", 1);
            ctx.eval(Some(&format!("{k:?} {e:?} {what}")));
            if parse::<Sch>(k, &v).is_ok() {
                ctx.violation(format!("{k:?} accepted with {what} ({e:?})"), json!({"bytes": hex::encode(&v)}));
                return false;
            }
        }
    }
    true
}

/// Objects of more elements than fit in a chunk of 64 or 128
fn wide(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(66, 140);
    let s: Vec<_> = (0..n).map(|_| scalar(rng)).collect();
    let g1: Vec<G1Affine> = s.iter().map(|s| (G1Affine::generator() * s).into()).collect();
    let g2: Vec<G2Affine> = s.iter().map(|s| (G2Affine::generator() * s).into()).collect();
    // a conjunction: rows (1, 0, ..., -1, ...)
    let rows: Vec<Vec<_>> = (0..n).map(|i| (0..3).map(|j| int(if i == j || j == 0 { 1 } else { 0 })).collect()).collect();
    let attrs: Vec<u32> = (1..=n as u32).collect();
    let objects = [
        (Kind::Msk, RMsk { t: s.clone(), y: scalar(rng) }.bytes()),
        (Kind::Mpk, RMpk { t: g1.clone(), y: gt_gen() }.bytes()),
        (Kind::Mdk, RMdk { t: g2.clone() }.bytes()),
        (Kind::Uk, RUk { d: g2, attrs: attrs.clone(), m: rows }.bytes()),
        (Kind::Ct, RCt { gamma: attrs, e: g1, ep: gt_gen() }.bytes()),
    ];
    for (k, o) in &objects {
        if let Err(e) = parse::<Sch>(*k, o) {
            ctx.violation(format!("a valid {k:?} of {n} elements is refused: {e}"), json!({"bytes": hex::encode(o)}));
            return;
        }
        ctx.count("valid objects accepted", 1);
        let els: Vec<_> = layout(*k, o).into_iter().filter(|x| !matches!(x.1, El::Count | El::Int)).collect();
        for _ in 0..24 {
            // mostly the far ones
            let i = if rng.chance(2, 3) { rng.range(60, els.len() - 1) } else { rng.below(els.len()) };
            let (at, e) = els[i];
            let (w, x) = bad(rng, e, &o[at..at + e.size()]);
            let mut v = o.clone();
            v[at..at + e.size()].copy_from_slice(&x);
            ctx.journal(w);
            tally(ctx, e, w);
            ctx.count("invalid elements in wide objects", 1);
            ctx.eval(Some(&format!("wide {k:?} {e:?} {} {w}", i / 16)));
            if parse::<Sch>(*k, &v).is_ok() {
                ctx.violation(
                    format!("{k:?} accepted with an invalid {e:?} ({w}) as element {i} of {}", els.len()),
                    json!({"bytes": hex::encode(&v), "offset": at}),
                );
                return;
            }
        }
        if !several(ctx, rng, *k, o, &els) {
            return;
        }
    }
}

fn tally(ctx: &mut Ctx, e: El, w: &str) {
    let n = match e {
        El::S => "invalid scalars",
        El::G1 => "invalid elements of G1",
        El::G2 => "invalid elements of G2",
        _ => "invalid elements of Gt",
    };
    ctx.count(n, 1);
    if w.ends_with("close to the valid one") {
        ctx.count("close to the valid one", 1);
    }
    match (e, w) {
        (El::G1, w) if w.starts_with("off the subgroup") => ctx.count("off the subgroup of G1", 1),
        (El::G2, w) if w.starts_with("off the subgroup") => ctx.count("off the subgroup of G2", 1),
        (El::Gt, w) if w.starts_with("off the target group") => ctx.count("off the target group", 1),
        _ => {}
    }
}

fn run(ctx: &mut Ctx) {
    ctx.phase("wide", 16, 200, wide);
    ctx.phase("positions", 64, 1200, |ctx, rng| {
        let p: &Profile = if rng.chance(1, 6) { &MEDIUM } else { &SMALL };
        let b = must!(ctx, bench(rng, p), "setup");
        for (k, o) in &b.objects {
            let lay = layout(*k, o);
            ctx.journal("valid object");
            if let Err(e) = parse::<Sch>(*k, o) {
                ctx.violation(format!("a valid {k:?} is refused: {e}"), json!({"bytes": hex::encode(o)}));
                return;
            }
            ctx.count("valid objects accepted", 1);
            let els: Vec<_> = lay.iter().filter(|x| !matches!(x.1, El::Count | El::Int)).collect();
            for (i, (at, e)) in els.iter().enumerate() {
                let n = if els.len() <= 3 { 8 } else if els.len() < 25 { 2 } else { 1 };
                for _ in 0..n {
                    let (w, x) = bad(rng, *e, &o[*at..at + e.size()]);
                    let mut v = o.clone();
                    v[*at..at + e.size()].copy_from_slice(&x);
                    ctx.journal(w);
                    let r = parse::<Sch>(*k, &v);
                    tally(ctx, *e, w);
                    let place = if i == 0 { "first" } else if i + 1 == els.len() { "last" } else { "middle" };
                    ctx.eval(Some(&format!("{k:?} {e:?} {place} {w}")));
                    ctx.sample(|| format!("{k:?} element {i} of {} ({e:?}): {w}", els.len()));
                    if r.is_ok() {
                        ctx.violation(
                            format!("{k:?} accepted with an invalid {e:?} ({w}) as element {i} of {}", els.len()),
                            json!({"bytes": hex::encode(&v), "offset": at}),
                        );
                        return;
                    }
                }
            }
        }
        for (k, o) in &b.objects {
            let els: Vec<_> = layout(*k, o).into_iter().filter(|x| !matches!(x.1, El::Count | El::Int)).collect();
            if !several(ctx, rng, *k, o, &els) {
                return;
            }
        }
        // where the same bytes are read by other functions
        let h = &b.header.1;
        let n = u32::from_be_bytes(h[..4].try_into().unwrap()) as usize;
        let ct = &h[4..4 + n];
        for (at, e) in layout(Kind::Ct, ct) {
            if matches!(e, El::Count | El::Int) {
                continue;
            }
            let (w, x) = bad(rng, e, &ct[at..at + e.size()]);
            let mut v = h.clone();
            v[4 + at..4 + at + e.size()].copy_from_slice(&x);
            ctx.journal("header");
            if hy::decrypt_header(&b.key, &v).is_ok() || b.a.eng.decrypt_symmetric_key(&b.key, &v[4..4 + n], 32).is_ok() {
                ctx.violation(format!("a header with an invalid {e:?} ({w}) is decrypted"), json!({"header": hex::encode(&v), "key": hex::encode(enc(&b.key))}));
                return;
            }
            ctx.count("headers refused", 1);
            ctx.eval(Some(&format!("header {e:?} {w}")));
        }
        let policy = b.a.w.policy.to_string();
        let ap = serde_json::to_string(&b.a.w.m.access(&b.f)).expect("json");
        let attrs = serde_json::to_string(&b.a.w.m.attrs_of(&b.l)).expect("json");
        for k in [Kind::Msk, Kind::Mpk, Kind::Uk] {
            let o = b.of(k);
            let els: Vec<_> = layout(k, o).into_iter().filter(|x| !matches!(x.1, El::Count | El::Int)).collect();
            for _ in 0..3 {
                let (at, e) = *rng.pick(&els);
                let (w, x) = bad(rng, e, &o[at..at + e.size()]);
                let mut v = o.to_vec();
                v[at..at + e.size()].copy_from_slice(&x);
                ctx.journal("C function");
                let ok = match k {
                    Kind::Msk => ffi::user_key(&v, &ap, &policy).is_ok(),
                    Kind::Mpk => ffi::enc_create(&policy, &v).is_ok() || ffi::enc_header(&policy, &v, &attrs, &[1], &[]).is_ok(),
                    _ => ffi::dec_create(&v).is_ok() || ffi::dec_header(h, &v).is_ok(),
                };
                if ok {
                    ctx.violation(format!("a C function accepts a {k:?} with an invalid {e:?} ({w})"), json!({"bytes": hex::encode(&v)}));
                    return;
                }
                ctx.count("keys refused by the C functions", 1);
                ctx.eval(Some(&format!("C {k:?} {e:?} {w}")));
            }
        }
    });
}
