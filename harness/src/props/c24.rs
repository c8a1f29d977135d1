use super::*;
use crate::reference::{gt_gen, int, random_gt, scalar};
use cosmian_abe_gpsw::core::bilinear_map::{
    bls12_381::{Bls12_381, Scalar as L},
    BilinearMap,
};
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_bls12_381::{pairing, G1Affine, G1Projective, G2Affine, G2Prepared, G2Projective, Gt, Scalar};
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    workers: 8,
    rule: "scalars of every kind (0, 1, -1, small, powers of two, near the order, random) and elements of the groups (neutral, generator, random, of small and of opposite exponents), the operations of the map compared with those of the curve library on known exponents, products of up to 300 pairings of every mixture; distinct = (operation, kinds of the operands, size)",
    floors: &[
        ("scalar operations", 20000), ("small integers", 20000), ("group operations", 4000), ("products of pairings", 600),
        ("terms of products", 10000), ("texts made scalars", 3000), ("random elements", 2000),
    ],
    assumptions: &["the curve crate computes single pairings, additions and multiplications rightly"],
};

/// r - 1 and the like, powers of two, small and random ones
fn any(rng: &mut Rng) -> (u8, Scalar) {
    match rng.below(9) {
        0 => (0, Scalar::zero()),
        1 => (1, Scalar::one()),
        2 => (2, -Scalar::one()),
        3 => (3, int(rng.range(2, 70_000) as i64)),
        4 => (4, -int(rng.range(2, 70_000) as i64)),
        5 => {
            let n = rng.below(255);
            (5, (0..n).fold(Scalar::one(), |s, _| s.double()))
        }
        6 => {
            let n = rng.below(255);
            (6, (0..n).fold(Scalar::one(), |s, _| s.double()) - Scalar::one())
        }
        7 => (7, scalar(rng).invert().unwrap_or(Scalar::one())),
        _ => (8, scalar(rng)),
    }
}

fn l(s: &Scalar) -> L {
    L::try_from_bytes(&s.to_bytes()).expect("scalar")
}

fn check(ctx: &mut Ctx, what: &str, ok: bool, d: impl Fn() -> serde_json::Value) {
    if !ok {
        ctx.violation(format!("{what}: another result than the law of the group"), d());
    }
}

fn scalars(ctx: &mut Ctx, rng: &mut Rng) {
    let g = Bls12_381;
    for _ in 0..200 {
        let ((ka, a), (kb, b)) = (any(rng), any(rng));
        let d = || json!({"a": hex::encode(a.to_bytes()), "b": hex::encode(b.to_bytes())});
        let (x, y) = (l(&a), l(&b));
        let same = |s: L, t: Scalar| s.to_bytes() == t.to_bytes() && s == l(&t);
        check(ctx, "sum of scalars", same(x.clone() + &y, a + b), d);
        check(ctx, "difference of scalars", same(x.clone() - &y, a - b), d);
        check(ctx, "product of scalars", same(x.clone() * &y, a * b), d);
        check(ctx, "opposite of a scalar", same(-x.clone(), Scalar::zero() - a), d);
        if b != Scalar::zero() {
            let Some(q) = ctx.guard("division of scalars", || x.clone() / &y) else { return };
            check(ctx, "quotient of scalars", same(q.clone() * &y, a) && same(q, a * b.invert().unwrap()), d);
        }
        check(ctx, "equality of scalars", (x == y) == (a == b) && x == x.clone(), d);
        check(ctx, "null and unit scalars", same(Bls12_381::ZERO + &x, a) && same(Bls12_381::ONE * &x, a), d);
        ctx.count("scalar operations", 7);
        // small integers
        let i = match rng.below(8) {
            0 => i32::MIN + rng.below(3) as i32,
            1 => i32::MAX - rng.below(3) as i32,
            2 => rng.below(7) as i32 - 3,
            3 => 1i32 << rng.below(31),
            4 => -(1i32 << rng.below(31)),
            5 => 65_536 + rng.below(5) as i32 - 2,
            _ => rng.u64() as i32,
        };
        check(ctx, "scalar of an integer", same(L::from(i), int(i.into())), || json!({"integer": i}));
        ctx.count("small integers", 1);
        ctx.eval(Some(&format!("scalars {ka} {kb} {}", i)));
        // texts
        let n = *rng.pick(&[0usize, 1, 2, 5, 16, 30, 31, 32, 32, 33, 40, 64, 200]);
        let mut t = rng.bytes(n);
        if n == 32 && rng.chance(1, 2) {
            t = match rng.below(4) {
                0 => a.to_bytes().to_vec(),
                1 => vec![0xff; 32],
                2 => {
                    // the order itself, or a little more
                    let mut m = (-Scalar::one()).to_bytes().to_vec();
                    m[0] = m[0].wrapping_add(rng.range(1, 4) as u8);
                    m
                }
                _ => vec![0; 32],
            };
        }
        let mut p = t.clone();
        p.resize(p.len().max(32), 0);
        let want: Option<Scalar> = if t.len() > 32 { None } else { Option::from(Scalar::from_bytes(&p[..32].try_into().unwrap())) };
        let td = || json!({"text": hex::encode(&t)});
        let Some(got) = ctx.guard("msg_to_scalar", || g.msg_to_scalar(&t)) else { return };
        check(ctx, "scalar of a text", got.as_ref().ok().map(|s| s.to_bytes()) == want.map(|s| s.to_bytes()), td);
        if rng.chance(1, 8) {
            let Some(got) = ctx.guard("msg_to_gt", || g.msg_to_gt(&t)) else { return };
            check(ctx, "element of a text", got.ok() == want.map(|s| gt_gen() * s), td);
        }
        ctx.count("texts made scalars", 1);
        if ctx.violated() {
            return;
        }
    }
}

/// an exponent, the elements of G1 and G2 with it
fn elements(a: &Scalar) -> (G1Affine, G2Affine) {
    (G1Affine::from(G1Projective::generator() * a), G2Affine::from(G2Projective::generator() * a))
}

fn groups(ctx: &mut Ctx, rng: &mut Rng) {
    let g = Bls12_381;
    for _ in 0..12 {
        let ((ka, mut a), (kb, b)) = (any(rng), any(rng));
        match rng.below(6) {
            0 => a = b,
            1 => a = -b,
            _ => {}
        }
        let d = || json!({"a": hex::encode(a.to_bytes()), "b": hex::encode(b.to_bytes())});
        let (x, y) = (l(&a), l(&b));
        let ((p1, p2), (q1, q2)) = (elements(&a), elements(&b));
        let (pt, qt) = (gt_gen() * a, gt_gen() * b);
        let prod = a * b;
        let (r1, r2) = elements(&prod);
        let r = ctx.guard("operations of the groups", || {
            let e = |p: &G2Prepared| g.prod_gt_exp(&[p], &[&G1Affine::generator()], &[&Bls12_381::ONE]);
            let (prep, aff) = g.g1_gen_exp(&x);
            let (mprep, maff) = g.g3_mul(&p2, &q2);
            let sum = elements(&(a + b)).1;
            vec![
                ("power of the generator of G1", aff == p2 && e(&prep) == pt),
                ("power of the generator of G3", g.g3_gen_exp(&x) == p2),
                ("power of the generator of G2", g.g2_gen_exp(&x) == p1),
                ("product in G3", maff == sum && e(&mprep) == gt_gen() * (a + b)),
                ("power in G3", g.g3_exp(&p2, &y) == r2),
                ("power in G2", g.g2_exp(&p1, &y) == r1 && g.g2_exp(&q1, &x) == r1),
                ("conversion from G3 to G1", e(&Bls12_381::g3_to_g1(&q2)) == qt),
                ("power of the generator of Gt", g.gt_gen_exp(&x) == pt),
                ("power in Gt", g.gt_exp(&qt, &x) == gt_gen() * prod),
                ("product in Gt", g.gt_mul(&pt, &qt) == gt_gen() * (a + b)),
                ("quotient in Gt", g.gt_div(&pt, &qt) == gt_gen() * (a - b)),
                ("vector of powers in G2", g.g2_gen_exp_vector(&[x.clone(), y.clone(), x.clone()]) == [p1, q1, p1]),
                ("vector of powers in G3", g.g3_gen_exp_vector(&[y.clone(), x.clone()]) == [q2, p2]),
                ("empty vectors", g.g2_gen_exp_vector(&[]).is_empty() && g.g3_gen_exp_vector(&[]).is_empty()),
            ]
        });
        let Some(r) = r else { return };
        ctx.count("group operations", r.len() as u64);
        for (what, ok) in r {
            check(ctx, what, ok, d);
        }
        ctx.eval(Some(&format!("groups {ka} {kb} {}", hex::encode(&a.to_bytes()[..3]))));
        if ctx.violated() {
            return;
        }
    }
}

fn products(ctx: &mut Ctx, rng: &mut Rng) {
    let g = Bls12_381;
    // a pool of elements of known exponents, as building new ones is long
    let ex: Vec<Scalar> = (0..24).map(|_| any(rng).1).collect();
    let el: Vec<_> = ex.iter().map(elements).collect();
    let prep: Vec<G2Prepared> = el.iter().map(|e| G2Prepared::from(e.1)).collect();
    for _ in 0..6 {
        let n = match rng.below(8) {
            0 => rng.below(3),
            1 => *rng.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
            2 => rng.range(100, 300),
            _ => rng.range(1, 40),
        };
        let t: Vec<(usize, usize, Scalar)> = (0..n)
            .map(|_| {
                let k = (rng.below(24), rng.below(24));
                (k.0, k.1, any(rng).1)
            })
            .collect();
        let coef: Vec<L> = t.iter().map(|x| l(&x.2)).collect();
        let d: Vec<_> = t.iter().map(|x| &prep[x.0]).collect();
        let e: Vec<_> = t.iter().map(|x| &el[x.1].0).collect();
        let c: Vec<_> = coef.iter().collect();
        let want = t.iter().fold(Scalar::zero(), |s, x| s + ex[x.0] * ex[x.1] * x.2);
        let Some(got) = ctx.guard("product of pairings", || g.prod_gt_exp(&d, &e, &c)) else { return };
        check(ctx, "product of pairings", got == gt_gen() * want, || json!({"terms": n}));
        if n == 1 {
            let p = pairing(&el[t[0].1].0, &el[t[0].0].1) * t[0].2;
            check(ctx, "single pairing", got == p, || json!({}));
        }
        ctx.count("products of pairings", 1);
        ctx.count("terms of products", n as u64);
        ctx.eval(Some(&format!("product {n} {}", rng.u64())));
        if ctx.violated() {
            return;
        }
    }
}

fn random(ctx: &mut Ctx, rng: &mut Rng) {
    let g = Bls12_381;
    let n = rng.range(0, 80);
    let v: Vec<L> = must!(ctx, g.gen_random_scalar_vector(n), "random scalars");
    check(ctx, "number of random scalars", v.len() == n, || json!({"asked": n, "got": v.len()}));
    let one = must!(ctx, g.gen_random_scalar(), "random scalar");
    let m: Gt = must!(ctx, g.gen_random_msg_in_gt(), "random element");
    let m2: Gt = must!(ctx, g.gen_random_msg_in_gt(), "random element");
    let mut all: Vec<[u8; 32]> = v.iter().map(|s| s.to_bytes()).collect();
    all.push(one.to_bytes());
    let total = all.len();
    all.sort_unstable();
    all.dedup();
    check(ctx, "random scalars", all.len() == total && all[0] != [0; 32], || json!({}));
    check(ctx, "random elements", m != m2 && m != Gt::identity() && m2 != Gt::identity(), || json!({}));
    // an element of the group: its power by the order is neutral
    let p = m * (-Scalar::one());
    check(ctx, "random elements", p + m == Gt::identity(), || json!({}));
    // and any product with a known one can be undone
    let k = random_gt(rng);
    check(ctx, "quotient in Gt", g.gt_div(&g.gt_mul(&m, &k), &k) == m, || json!({}));
    ctx.count("random elements", n as u64 + 3);
    ctx.eval(Some(&format!("random {n} {}", rng.u64())));
}

fn run(ctx: &mut Ctx) {
    ctx.phase("scalars", 160, 12000, scalars);
    ctx.phase("groups", 100, 8000, groups);
    ctx.phase("products", 240, 12000, products);
    ctx.phase("random", 80, 4000, random);
}
