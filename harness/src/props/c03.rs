use super::*;
use crate::reference::*;
use cosmian_bls12_381::{G2Affine, G2Projective, Scalar};
use serde_json::json;
use std::collections::{BTreeSet, HashMap};

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    workers: 8,
    rule: "random policies, several keys (generated and delegated) none of which is satisfied by a cipher text; forgeries (span program and labels rewritten, components of several keys, authorities or cipher texts spliced, forged keys delegated) given to the library, and all combinations with small coefficients of the shares of several keys compared, in the exponent, to the master secret and to zero; over transparent groups, the linear span of everything a coalition can compute is eliminated exactly and must not hold the master secret; distinct = (kind of forgery or relation set, policy, formulas)",
    floors: &[
        ("forged decryptions", 500), ("relations evaluated", 20000), ("keys in relation sets", 200), ("keys of more than 8 columns", 6), ("columns recovered", 150),
        ("transparent: sets of unsatisfied keys", 100),
        ("transparent: sets with a satisfied key", 20),
        ("transparent: shares compared", 2000),
    ],
    assumptions: &[MODEL, REF, "only combinations with coefficients -1, 0, 1 (or up to 3 in absolute value on fewer rows) are tried"],
};

/// One row of a key, as an attacker holding the t_i would see it: g2^share
pub struct Row {
    key: usize,
    m: Vec<Scalar>,
    p: G2Projective,
}

pub fn rows(msk: &RMsk, keys: &[RUk]) -> Vec<Row> {
    let mut out = vec![];
    for (k, key) in keys.iter().enumerate() {
        for (i, d) in key.d.iter().enumerate() {
            out.push(Row { key: k, m: key.m[i].clone(), p: G2Projective::from(d) * msk.t[key.attrs[i] as usize] });
        }
    }
    out
}

/// Value, as a multiple of the master secret, that the combination must have
/// whatever the random shares; None when it depends on them
fn determined(rows: &[&Row], c: &[i64]) -> Option<i64> {
    let mut total = 0;
    let keys: BTreeSet<usize> = rows.iter().map(|r| r.key).collect();
    for k in keys {
        let mine: Vec<_> = rows.iter().zip(c).filter(|(r, _)| r.key == k).collect();
        let cols = mine[0].0.m.len();
        let mut sum = vec![Scalar::zero(); cols];
        for (r, c) in mine {
            for (s, x) in sum.iter_mut().zip(&r.m) {
                *s += x * int(*c);
            }
        }
        if sum.iter().any(|x| *x != sum[0]) {
            return None;
        }
        total += (-40..=40).find(|v| int(*v) == sum[0])?;
    }
    Some(total)
}

/// Evaluates every combination of the rows with coefficients in -max..=max
/// (the first non-null one positive), and checks those giving a multiple of
/// the master secret
pub fn relations(ctx: &mut Ctx, y: &Scalar, rows: &[&Row], max: i64, what: &str) {
    let n = rows.len();
    let base = (2 * max + 1) as usize;
    let mut points: Vec<G2Projective> = vec![G2Projective::identity()];
    let mut coefs: Vec<Vec<i64>> = vec![vec![]];
    for r in rows {
        let mult: Vec<G2Projective> = (-max..=max).map(|c| r.p * int(c)).collect();
        let mut np = Vec::with_capacity(points.len() * base);
        let mut nc = Vec::with_capacity(points.len() * base);
        for (p, c) in points.iter().zip(&coefs) {
            for (k, q) in mult.iter().enumerate() {
                let x = k as i64 - max;
                if c.iter().all(|z| *z == 0) && x < 0 {
                    continue;
                }
                np.push(if x == 0 { *p } else { p + q });
                let mut c = c.clone();
                c.push(x);
                nc.push(c);
            }
        }
        points = np;
        coefs = nc;
    }
    let mut aff = vec![G2Affine::identity(); points.len()];
    G2Projective::batch_normalize(&points, &mut aff);
    let targets: HashMap<[u8; 96], i64> = (-4i64..=4)
        .map(|l| (G2Affine::from(G2Projective::generator() * (y * int(l))).to_compressed(), l))
        .collect();
    ctx.count("relations evaluated", points.len() as u64);
    for (p, c) in aff.iter().zip(&coefs) {
        if c.iter().all(|x| *x == 0) {
            continue;
        }
        // cheap filter: compare the bytes
        if let Some(l) = targets.get(&p.to_compressed()) {
            if determined(rows, c) != Some(*l) {
                ctx.violation(
                    format!("{what}: combination {c:?} of the shares of {n} components gives {l} times the master secret"),
                    json!({"keys": rows.iter().map(|r| r.key).collect::<Vec<_>>(),
                        "rows": rows.iter().map(|r| r.m.iter().map(|x| format!("{x}")).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                );
                return;
            }
            ctx.count("relations imposed by the span programs", 1);
        }
    }
}

/// No share, nor difference of shares, is common to several keys unless the
/// span programs impose it
pub fn independent(ctx: &mut Ctx, rows: &[Row], what: &str) {
    let free: Vec<&Row> = rows.iter().filter(|r| r.m.iter().any(|x| *x != r.m[0])).collect();
    let mut proj: Vec<G2Projective> = free.iter().map(|r| r.p).collect();
    let mut names: Vec<(usize, Option<usize>)> = (0..free.len()).map(|i| (i, None)).collect();
    for i in 0..free.len() {
        for j in i + 1..free.len() {
            if names.len() > 6000 {
                break;
            }
            proj.push(free[i].p - free[j].p);
            names.push((i, Some(j)));
        }
    }
    if proj.is_empty() {
        return;
    }
    let mut aff = vec![G2Affine::identity(); proj.len()];
    G2Projective::batch_normalize(&proj, &mut aff);
    let mut seen: HashMap<[u8; 96], (usize, Option<usize>)> = HashMap::new();
    ctx.count("shares and differences compared", proj.len() as u64);
    for (p, n) in aff.iter().zip(&names) {
        let b = if bool::from(p.is_identity()) {
            [0; 96]
        } else {
            let m = -p;
            p.to_compressed().min(m.to_compressed())
        };
        let other = if b == [0; 96] { Some((usize::MAX, None)) } else { seen.get(&b).copied() };
        if let Some(o) = other {
            // the combination must be imposed: check both signs
            let mut idx = vec![];
            let mut c1 = vec![];
            let mut add = |i: usize, c: i64, s: i64| {
                if let Some(k) = idx.iter().position(|x| *x == i) {
                    let v: &mut (i64, i64) = &mut c1[k];
                    v.0 += c;
                    v.1 += c * s;
                } else {
                    idx.push(i);
                    c1.push((c, c * s));
                }
            };
            add(n.0, 1, 1);
            if let Some(j) = n.1 {
                add(j, -1, 1);
            }
            if o.0 != usize::MAX {
                add(o.0, -1, -1);
                if let Some(j) = o.1 {
                    add(j, 1, -1);
                }
            }
            let rs: Vec<&Row> = idx.iter().map(|i| free[*i]).collect();
            let minus: Vec<i64> = c1.iter().map(|c| c.0).collect();
            let plus: Vec<i64> = c1.iter().map(|c| c.1).collect();
            let imposed = determined(&rs, &minus) == Some(0) || determined(&rs, &plus) == Some(0);
            if !imposed {
                ctx.violation(
                    format!("{what}: shares of different components or keys are related ({minus:?} over keys {:?})",
                        rs.iter().map(|r| r.key).collect::<Vec<_>>()),
                    json!({}),
                );
                return;
            }
        } else {
            seen.insert(b, *n);
        }
    }
}

/// The random values of the columns of a key, in the exponent, when its rows
/// determine them
pub fn columns(key: usize, rows: &[Row]) -> Vec<Row> {
    let mine: Vec<&Row> = rows.iter().filter(|r| r.key == key).collect();
    let Some(first) = mine.first() else { return vec![] };
    let cols = first.m.len();
    let m: Vec<Vec<Scalar>> = mine.iter().map(|r| r.m.clone()).collect();
    (0..cols)
        .filter_map(|j| {
            let mut e = vec![Scalar::zero(); cols];
            e[j] = Scalar::one();
            let c = solve_for(&m, &e)?;
            let mut p = G2Projective::identity();
            for (r, c) in mine.iter().zip(&c) {
                if *c == Scalar::one() {
                    p += r.p;
                } else if *c == -Scalar::one() {
                    p -= r.p;
                } else if *c != Scalar::zero() {
                    p += r.p * c;
                }
            }
            Some(Row { key, m: e, p })
        })
        .collect()
}

fn forged(ctx: &mut Ctx, a: &Auth, key: &RUk, ct: &RCt, msg: &Pt, kind: &str) {
    if key.m.is_empty() || key.m[0].is_empty() {
        return;
    }
    let mut seen = BTreeSet::new();
    if !key.attrs.iter().all(|x| seen.insert(*x)) {
        return;
    }
    ctx.journal(kind);
    let (Ok(k), Ok(c)) = (dec::<Uk>(&key.bytes()), dec::<Ct>(&ct.bytes())) else {
        ctx.count("forgeries refused by the parsers", 1);
        return;
    };
    match a.eng.decrypt(&c, &k) {
        Ok(Some(m)) if m == *msg => ctx.violation(
            format!("a forgery decrypted the message: {kind}"),
            json!({"policy": describe(&a.w), "key": hex::encode(key.bytes()), "ciphertext": hex::encode(ct.bytes())}),
        ),
        Ok(Some(_)) => ctx.count("forgeries giving another value", 1),
        _ => ctx.count("forgeries giving nothing", 1),
    }
    ctx.count("forged decryptions", 1);
    ctx.count(&format!("forged: {kind}"), 1);
    ctx.eval(Some(&format!("{kind} {} {:?} {:?}", describe(&a.w), key.attrs, ct.gamma)));
}

/// One column of ones for each row: each component would open alone
fn flat(key: &RUk) -> RUk {
    RUk { d: key.d.clone(), attrs: key.attrs.clone(), m: vec![vec![Scalar::one()]; key.d.len()] }
}

fn pick_rows(key: &RUk, keep: &[usize]) -> RUk {
    RUk {
        d: keep.iter().map(|i| key.d[*i]).collect(),
        attrs: keep.iter().map(|i| key.attrs[*i]).collect(),
        m: keep.iter().map(|i| key.m[*i].clone()).collect(),
    }
}

/// Attacks with the keys on the cipher text `ct` of `msg`
fn attacks(ctx: &mut Ctx, rng: &mut Rng, a: &Auth, keys: &[RUk], ct: &RCt, msg: &Pt, foreign: &RUk) {
    let gamma = ct.gamma.clone();
    let inside = |k: &RUk| -> Vec<usize> { (0..k.d.len()).filter(|i| gamma.contains(&k.attrs[*i])).collect() };
    for key in keys {
        // the span program replaced: any component opens, or all needed
        forged(ctx, a, &flat(key), ct, msg, "span program flattened");
        let n = key.d.len();
        for kind in 0..4 {
            let mut k = key.clone();
            match kind {
                0 => {
                    // an And of what is held
                    let (attrs, m) = msp(&k.attrs.iter().map(|x| V::Any([*x].into())).reduce(|x, y| V::Or(Box::new(x), Box::new(y))).unwrap());
                    k = RUk { d: k.d.clone(), attrs, m };
                    forged(ctx, a, &k, ct, msg, "formula replaced by an Or");
                }
                1 => {
                    let ins = inside(key);
                    if !ins.is_empty() {
                        let sub = pick_rows(key, &ins);
                        let (_, m) = msp(&sub.attrs.iter().map(|x| V::Any([*x].into())).reduce(|x, y| V::And(Box::new(x), Box::new(y))).unwrap());
                        forged(ctx, a, &RUk { m, ..sub.clone() }, ct, msg, "And of the components held");
                        // columns dropped, keeping the rows held
                        let cols = key.m[0].len();
                        let keep: Vec<usize> = (0..cols).filter(|_| rng.chance(1, 2)).collect();
                        let m = sub.m.iter().map(|r| keep.iter().map(|c| r[*c]).collect()).collect();
                        if !keep.is_empty() {
                            forged(ctx, a, &RUk { m, ..sub }, ct, msg, "columns dropped");
                        }
                    }
                }
                2 => {
                    // labels: attributes lacking from the cipher text renamed as some it has
                    let free: Vec<u32> = gamma.iter().copied().filter(|g| !k.attrs.contains(g)).collect();
                    let mut f = free.into_iter();
                    for x in &mut k.attrs {
                        if !gamma.contains(x) {
                            if let Some(g) = f.next() {
                                *x = g;
                            }
                        }
                    }
                    forged(ctx, a, &k, ct, msg, "labels of the key rewritten");
                }
                _ => {
                    k.attrs.rotate_left(rng.below(n));
                    forged(ctx, a, &k, ct, msg, "labels of the key permuted");
                }
            }
        }
        // labels of the cipher text rewritten as what the key needs
        let mut c = ct.clone();
        let mut need: Vec<u32> = key.attrs.iter().copied().filter(|x| !gamma.contains(x)).collect();
        rng.shuffle(&mut need);
        for (i, x) in need.iter().enumerate() {
            if !c.e.is_empty() {
                let e = c.e[i % ct.e.len()];
                c.gamma.push(*x);
                c.e.push(e);
            }
        }
        forged(ctx, a, key, &c, msg, "labels of the cipher text added");
        // a foreign cipher text's components
        if let Some(other) = a.mpk_ref().map(|p| {
            let m = random_gt(rng);
            p.encrypt(rng, &m, &key.attrs)
        }) {
            let mut c = ct.clone();
            for (i, g) in other.gamma.iter().enumerate() {
                if !gamma.contains(g) {
                    c.gamma.push(*g);
                    c.e.push(other.e[i]);
                }
            }
            forged(ctx, a, key, &c, msg, "components of another cipher text");
        }
    }
    // splices of two keys
    for _ in 0..4 {
        let k1 = rng.pick(keys).clone();
        let from_foreign = rng.chance(1, 4);
        let k2 = if from_foreign { foreign.clone() } else { rng.pick(keys).clone() };
        let mut k = k1.clone();
        // rows of k1 outside the cipher text replaced by rows of k2 inside
        let mut ins = inside(&k2).into_iter();
        for i in 0..k.d.len() {
            if !gamma.contains(&k.attrs[i]) {
                if let Some(j) = ins.next() {
                    if !k.attrs.contains(&k2.attrs[j]) {
                        k.d[i] = k2.d[j];
                        k.attrs[i] = k2.attrs[j];
                    }
                }
            }
        }
        forged(ctx, a, &k, ct, msg, if from_foreign { "components of another authority" } else { "components of two keys spliced" });
        // same shape, components swapped
        let mut k = k1.clone();
        for (i, x) in k1.attrs.iter().enumerate() {
            if let Some(j) = k2.attrs.iter().position(|y| y == x) {
                if rng.chance(1, 2) {
                    k.d[i] = k2.d[j];
                }
            }
        }
        forged(ctx, a, &k, ct, msg, "components swapped");
        // the union of what both hold
        let mut u = pick_rows(&k1, &inside(&k1));
        let p2 = pick_rows(&k2, &inside(&k2));
        for (i, x) in p2.attrs.iter().enumerate() {
            if !u.attrs.contains(x) {
                u.attrs.push(*x);
                u.d.push(p2.d[i]);
                u.m.push(vec![]);
            }
        }
        if !u.attrs.is_empty() {
            let (_, m) = msp(&u.attrs.iter().map(|x| V::Any([*x].into())).reduce(|x, y| V::And(Box::new(x), Box::new(y))).unwrap());
            forged(ctx, a, &RUk { m, ..u }, ct, msg, "And of the components of two keys");
        }
        if ctx.violated() {
            return;
        }
    }
    // forged keys given to the delegation
    let k = rng.pick(keys).clone();
    for kind in 0..2 {
        let f = if kind == 0 {
            flat(&k)
        } else {
            let mut f = k.clone();
            let mut free = gamma.iter().copied().filter(|g| !k.attrs.contains(g));
            for x in &mut f.attrs {
                if !gamma.contains(x) {
                    if let Some(g) = free.next() {
                        *x = g;
                    }
                }
            }
            f
        };
        let Ok(uk) = dec::<Uk>(&f.bytes()) else { continue };
        if let Ok(d) = a.eng.delegate_user_key(&a.w.policy, &a.mdk, &uk, &abe_policy::AccessPolicy::All) {
            let d = RUk::parse(&enc(&d)).expect("delegated key");
            forged(ctx, a, &d, ct, msg, "delegation of a forged key");
        }
    }
}

fn run(ctx: &mut Ctx) {
    #[cfg(feature = "clear")]
    {
        super::transparent::collusion(ctx);
        super::transparent::independence(ctx, false);
    }
    ctx.phase("attacks", 100, 4000, |ctx, rng| {
        let p = if rng.chance(1, 2) { &SMALL } else { &MEDIUM };
        let w = gen_world(rng, p);
        let a = must!(ctx, Auth::new(w), "setup");
        let other = must!(ctx, Auth::new(a.w.clone()), "setup");
        let all = a.w.m.all();
        // a list of attributes, and keys it does not satisfy
        let f0 = gen_formula(rng, &a.w.m, 8);
        let l = gen_unsat(rng, &a.w.m, &f0);
        if l.is_empty() {
            return;
        }
        let have = a.w.m.currents(&l);
        let mut fs = vec![f0.clone(), f0];
        for _ in 0..12 {
            if fs.len() >= 4 {
                break;
            }
            let f = gen_formula(rng, &a.w.m, 8);
            // classic collusion: one conjunct held, the other not
            let f = if rng.chance(1, 2) { F::and(F::Attr(*rng.pick(&l)), F::Attr(*rng.pick(&all))) } else { f };
            if a.w.m.well_formed(&f) && !a.w.m.snapshot(&f).eval(&have) {
                fs.push(f);
            }
        }
        let mut keys = vec![];
        for f in &fs {
            let k = must!(ctx, a.key(f), "key");
            if rng.chance(1, 3) {
                let d = must!(
                    ctx,
                    a.eng.delegate_user_key(&a.w.policy, &a.mdk, &k, &abe_policy::AccessPolicy::All),
                    "delegation for all attributes"
                );
                keys.push(RUk::parse(&enc(&d)).expect("key"));
            }
            keys.push(RUk::parse(&enc(&k)).expect("key"));
        }
        let foreign = RUk::parse(&enc(&must!(ctx, other.key(&fs[0]), "key"))).expect("key");
        ctx.sample(|| format!("policy {} attributes {l:?} formulas {:?}", describe(&a.w), fs.iter().map(F::shape).collect::<Vec<_>>()));
        let msg = must!(ctx, a.message(), "message");
        let ct = RCt::parse(&enc(&must!(ctx, a.encrypt(&l, &msg), "encrypt"))).expect("cipher text");
        attacks(ctx, rng, &a, &keys, &ct, &msg, &foreign);
        if ctx.violated() {
            return;
        }
        // every combination of what the keys hold for the cipher text
        let msk = RMsk::parse(&enc(&a.msk)).expect("master key");
        let rs = rows(&msk, &keys);
        ctx.count("keys in relation sets", keys.len() as u64);
        let usable: BTreeSet<u32> = ct.gamma.iter().copied().collect();
        let mut at = 0;
        let mut useful: Vec<&Row> = vec![];
        for k in &keys {
            for x in &k.attrs {
                if usable.contains(x) {
                    useful.push(&rs[at]);
                }
                at += 1;
            }
        }
        rng.shuffle(&mut useful);
        useful.truncate(7);
        if !useful.is_empty() {
            relations(ctx, &msk.y, &useful, 1, "components held for the cipher text");
            ctx.eval(Some(&format!("usable {} {:?}", describe(&a.w), fs)));
        }
        let mut any: Vec<&Row> = rs.iter().collect();
        rng.shuffle(&mut any);
        any.truncate(4);
        relations(ctx, &msk.y, &any, 3, "components of the keys");
        ctx.eval(Some(&format!("any {} {:?}", describe(&a.w), fs)));
        independent(ctx, &rs, "keys of one authority");
    });
    ctx.phase("wide", 12, 120, |ctx, rng| {
        // the random values behind keys of many components
        let n = match ctx.case() {
            0 => rng.range(66, 72),
            1 => rng.range(34, 40),
            _ => rng.range(9, 33),
        };
        let a = must!(ctx, Auth::new(super::flat(n)), "setup");
        let msk = RMsk::parse(&enc(&a.msk)).expect("master key");
        let mut leaves = a.w.m.all();
        rng.shuffle(&mut leaves);
        let (bias, skew) = (*rng.pick(&[10, 10, 9, 7]), rng.below(4));
        let f = gen_tree(rng, &leaves, bias, skew);
        let k = must!(ctx, a.key(&f), "key");
        let mut keys = vec![RUk::parse(&enc(&k)).expect("key")];
        if n < 50 {
            let d = if rng.chance(1, 2) {
                a.key(&f)
            } else {
                a.eng.delegate_user_key(&a.w.policy, &a.mdk, &k, &abe_policy::AccessPolicy::All).map_err(|e| e.to_string())
            };
            keys.push(RUk::parse(&enc(&must!(ctx, d, "second key"))).expect("key"));
        }
        let rs = rows(&msk, &keys);
        let mut cols = vec![];
        for i in 0..keys.len() {
            let c = columns(i, &rs);
            if c.len() > 8 {
                ctx.count("keys of more than 8 columns", 1);
            }
            ctx.count("columns recovered", c.len() as u64);
            cols.extend(c);
        }
        independent(ctx, &rs, "shares of keys of many components");
        independent(ctx, &cols, "random values of keys of many components");
        ctx.eval(Some(&format!("wide {} {}", n, f.shape())));
    });
    ctx.phase("one-key", 120, 2000, |ctx, rng| {
        // all the components of a key, below what its policy requires
        let w = gen_world(rng, &MEDIUM);
        let a = must!(ctx, Auth::new(w), "setup");
        let msk = RMsk::parse(&enc(&a.msk)).expect("master key");
        let mut leaves = gen_leaves(rng, &a.w.m, 8);
        leaves.truncate(8);
        let f = gen_tree(rng, &leaves, 8, 0);
        let k = RUk::parse(&enc(&must!(ctx, a.key(&f), "key"))).expect("key");
        let rs = rows(&msk, &[k]);
        let mut r: Vec<&Row> = rs.iter().collect();
        rng.shuffle(&mut r);
        r.truncate(7);
        ctx.count("keys in relation sets", 1);
        relations(ctx, &msk.y, &r, 1, "components of one key");
        independent(ctx, &rs, "one key");
        ctx.eval(Some(&format!("one {} {}", describe(&a.w), f.shape())));
    });
    ctx.phase("series", 16, 200, |ctx, rng| {
        // many keys of one policy, generated and delegated in a row
        let w = gen_world(rng, &SMALL);
        let a = must!(ctx, Auth::new(w), "setup");
        let msk = RMsk::parse(&enc(&a.msk)).expect("master key");
        let mut f = gen_formula(rng, &a.w.m, 5);
        for _ in 0..8 {
            if f.size() >= 2 {
                break;
            }
            f = gen_formula(rng, &a.w.m, 5);
        }
        let mut leaves = vec![];
        f.leaves(&mut leaves);
        let f = gen_tree(rng, &leaves, 8, 0);
        let mut keys = vec![];
        let first = must!(ctx, a.key(&f), "key");
        for i in 0..16 {
            let k = if i % 3 == 2 {
                must!(
                    ctx,
                    a.eng.delegate_user_key(&a.w.policy, &a.mdk, &first, &a.w.m.access(&f)),
                    "delegation"
                )
            } else {
                must!(ctx, a.key(&f), "key")
            };
            keys.push(RUk::parse(&enc(&k)).expect("key"));
        }
        keys.push(RUk::parse(&enc(&first)).expect("key"));
        let rs = rows(&msk, &keys);
        ctx.count("keys in relation sets", keys.len() as u64);
        independent(ctx, &rs, "series of keys");
        // two keys at a time
        for _ in 0..3 {
            let i = rng.below(keys.len());
            let j = rng.below(keys.len());
            let mut r: Vec<&Row> = rs.iter().filter(|r| r.key == i || r.key == j).collect();
            rng.shuffle(&mut r);
            r.truncate(6);
            relations(ctx, &msk.y, &r, 1, "two keys of a series");
        }
        ctx.eval(Some(&format!("series {} {}", describe(&a.w), f.shape())));
    });
}
