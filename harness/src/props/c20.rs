use super::*;
use crate::reference::*;
use abe_policy::AccessPolicy;
use cosmian_bls12_381::{pairing, G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use serde_json::json;
use std::collections::{BTreeSet, HashSet};

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    workers: 8,
    rule: "master keys of random policies, of all capacities from 0 to 66 and of sampled ones up to 600 (thorough 2500), before and after rotations up to the last value; every component of the public and delegation keys compared with that of the private key by an independent implementation, every share of generated and delegated keys by the linear relations of its rows, every component of cipher texts by the secrets; the same over transparent groups up to capacities of thousands; distinct = capacity and policy, or (policy, formula)",
    floors: &[
        ("master keys", 150),
        ("components compared", 6000),
        ("keys whose shares add up", 200),
        ("relations between shares", 500),
        ("delegated keys", 60),
        ("values used", 500),
        ("cipher texts explained", 200),
        ("transparent: components compared", 100000),
        ("transparent: keys whose shares add up", 2000),
        ("C: keys exchanged", 50),
        ("Python: keys exchanged", 60),
        ("WebAssembly: keys exchanged", 20),
    ],
    assumptions: &[MODEL, REF],
};

struct Secrets {
    sk: RMsk,
    g2: G2Projective,
}

/// The three keys against one another
fn master(ctx: &mut Ctx, a: &Auth, max: u32) -> Option<Secrets> {
    ctx.count("master keys", 1);
    let parsed = (RMsk::parse(&enc(&a.msk)), RMpk::parse(&enc(&a.mpk)), RMdk::parse(&enc(&a.mdk)));
    let d = || json!({"policy": describe(&a.w), "capacity": max});
    let (Some(sk), Some(pk), Some(dk)) = parsed else {
        ctx.violation("the master keys are not those of the format", d());
        return None;
    };
    if sk.t.len() <= max as usize {
        ctx.violation(format!("{} secrets for {max} attribute values", sk.t.len()), d());
        return None;
    }
    if pk.t.len() != sk.t.len() || dk.t.len() != sk.t.len() {
        ctx.violation(
            format!("{} private, {} public and {} delegation components", sk.t.len(), pk.t.len(), dk.t.len()),
            d(),
        );
        return None;
    }
    let mut seen = HashSet::new();
    for (i, t) in sk.t.iter().enumerate() {
        if *t == Scalar::zero() || !seen.insert(t.to_bytes()) {
            ctx.violation(format!("secret {i} is null or repeated"), d());
            return None;
        }
        if G1Affine::from(G1Affine::generator() * t) != pk.t[i] {
            ctx.violation(format!("public component {i} is not that of the secret"), d());
            return None;
        }
        if G2Affine::from(G2Affine::generator() * t.invert().unwrap()) != dk.t[i] {
            ctx.violation(format!("delegation component {i} is not that of the secret"), d());
            return None;
        }
    }
    if sk.y == Scalar::zero() || !seen.insert(sk.y.to_bytes()) {
        ctx.violation("the master secret is null or that of an attribute", d());
        return None;
    }
    if gt_gen() * sk.y != pk.y {
        ctx.violation("the public target element is not that of the master secret", d());
        return None;
    }
    ctx.count("components compared", 2 * sk.t.len() as u64);
    Some(Secrets { sk, g2: G2Projective::generator() })
}

/// The shares of a key: g2^share = D_i^t
fn shares(ctx: &mut Ctx, s: &Secrets, key: &Uk, values: &V, what: &str) {
    let d = |x: String| json!({"key": what, "detail": x, "bytes": hex::encode(enc(key))});
    let Some(k) = RUk::parse(&enc(key)) else {
        ctx.violation("a key is not that of the format", d(String::new()));
        return;
    };
    let mut leaves = vec![];
    values.leaves(&mut leaves);
    let held: BTreeSet<u32> = k.attrs.iter().copied().collect();
    if held != leaves.iter().copied().collect() || held.len() != k.attrs.len() {
        ctx.violation("the attributes of a key are not those of its access policy", d(format!("{:?}", k.attrs)));
        return;
    }
    let points: Vec<G2Projective> =
        k.d.iter().zip(&k.attrs).map(|(p, a)| G2Projective::from(p) * s.sk.t[*a as usize]).collect();
    // all the relations between the rows
    for i in 0..k.m.len() {
        let Some(c) = (if i == 0 {
            k.m[0].iter().all(|x| *x == Scalar::zero()).then(Vec::new)
        } else {
            solve_for(&k.m[..i], &k.m[i])
        }) else {
            continue;
        };
        let sum = c.iter().zip(&points).fold(G2Projective::identity(), |t, (x, p)| t + p * x);
        ctx.count("relations between shares", 1);
        if sum != points[i] {
            ctx.violation(format!("share {i} is not the combination of the others its row is"), d(format!("{c:?}")));
            return;
        }
    }
    match solve(&k.m) {
        None => ctx.violation("the rows of a key do not reach the target", d(String::new())),
        Some(c) => {
            let sum = c.iter().zip(&points).fold(G2Projective::identity(), |t, (x, p)| t + p * x);
            if sum != s.g2 * s.sk.y {
                ctx.violation("the shares of a key do not add up to the master secret", d(String::new()));
            }
        }
    }
    // the rows accept the sets of values satisfying the access policy
    let n = k.attrs.len();
    if n <= 9 {
        for b in 1u32..1 << n {
            let idx: Vec<usize> = (0..n).filter(|i| b >> i & 1 == 1).collect();
            let set = idx.iter().map(|i| k.attrs[*i]).collect();
            let rows: Vec<_> = idx.iter().map(|i| k.m[*i].clone()).collect();
            if solve(&rows).is_some() != values.eval(&set) {
                ctx.violation("the rows of a key do not accept what its access policy says", d(format!("{set:?}")));
                return;
            }
        }
    }
    ctx.count("keys whose shares add up", 1);
    ctx.eval(Some(what));
}

/// A cipher text: every E_v is g1^(t_v s), and E' = m Y^s
fn explained(ctx: &mut Ctx, s: &Secrets, ct: &Ct, m: &Pt, vals: &BTreeSet<u32>) {
    let d = || json!({"ciphertext": hex::encode(enc(ct))});
    let (Some(c), Some(m)) = (RCt::parse(&enc(ct)), Cur::new(&enc(m)).gt()) else {
        ctx.violation("a cipher text is not that of the format", d());
        return;
    };
    if c.gamma.iter().copied().collect::<BTreeSet<_>>() != *vals {
        ctx.violation("the attributes of a cipher text are not those asked for", d());
        return;
    }
    let mut base: Option<G1Projective> = None;
    for (v, e) in c.gamma.iter().zip(&c.e) {
        let b = e * s.sk.t[*v as usize].invert().unwrap();
        if *base.get_or_insert(b) != b || b == G1Projective::identity() {
            ctx.violation(format!("the component of value {v} has another exponent"), d());
            return;
        }
    }
    let Some(base) = base else { return };
    if pairing(&G1Affine::from(base), &G2Affine::generator()) * s.sk.y + m != c.ep {
        ctx.violation("the message is not masked by the exponent of the components", d());
    }
    ctx.count("cipher texts explained", 1);
    ctx.eval(None);
}

fn use_all(ctx: &mut Ctx, rng: &mut Rng, a: &Auth, s: &Secrets) {
    // each value allocated so far as an attribute of a cipher text and of a key
    let all = a.w.m.all();
    let pick: Vec<At> = if all.len() > 12 {
        let mut l = all.clone();
        rng.shuffle(&mut l);
        l.truncate(8);
        // the last one given
        l.extend(all.iter().filter(|x| a.w.m.current(**x) == a.w.m.last));
        l
    } else {
        all.clone()
    };
    let m = must!(ctx, a.message(), "message");
    let ct = must!(ctx, a.encrypt(&pick, &m), "encrypt");
    explained(ctx, s, &ct, &m, &a.w.m.currents(&pick));
    for x in pick {
        let f = F::Attr(x);
        let k = must!(ctx, a.key(&f), "key for value {}", a.w.m.current(x));
        match a.eng.decrypt(&ct, &k) {
            Ok(Some(p)) if p == m => {}
            r => ctx.violation(
                format!("value {} of {}: decryption gives {:?}", a.w.m.current(x), a.w.m.max, r.map(|x| x.is_some()).map_err(|e| e.to_string())),
                json!({"policy": describe(&a.w)}),
            ),
        }
        ctx.count("values used", 1);
        if ctx.violated() {
            return;
        }
    }
}

fn run(ctx: &mut Ctx) {
    #[cfg(feature = "clear")]
    super::transparent::large_policies(ctx);
    ctx.phase("worlds", 96, 2500, |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let max = w.m.max;
        let a = must!(ctx, Auth::new(w), "setup");
        let Some(s) = master(ctx, &a, max) else { return };
        ctx.eval(Some(&describe(&a.w)));
        ctx.sample(|| describe(&a.w));
        for _ in 0..2 {
            let f = gen_formula(rng, &a.w.m, 10);
            let v = a.w.m.snapshot(&f);
            let k = must!(ctx, a.key(&f), "key");
            shares(ctx, &s, &k, &v, &format!("{} {}", describe(&a.w), f.shape()));
            // delegated: same policy, then a narrower one
            let g = if rng.chance(1, 3) { None } else { Some(crate::props::c04::narrower(rng, &f)) };
            let ap = g.as_ref().map_or(AccessPolicy::All, |g| a.w.m.access(g));
            let dk = must!(ctx, a.eng.delegate_user_key(&a.w.policy, &a.mdk, &k, &ap), "delegation");
            let gv = g.as_ref().map_or(v, |g| a.w.m.snapshot(g));
            ctx.count("delegated keys", 1);
            shares(ctx, &s, &dk, &gv, &format!("{} {} delegated {:?}", describe(&a.w), f.shape(), g.map(|g| g.shape())));
            let l = gen_sat(rng, &a.w.m, &f);
            let m = must!(ctx, a.message(), "message");
            let ct = must!(ctx, a.encrypt(&l, &m), "encrypt");
            explained(ctx, &s, &ct, &m, &a.w.m.currents(&l));
            if ctx.violated() {
                return;
            }
        }
        let k = must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &AccessPolicy::All), "key for all");
        shares(ctx, &s, &k, &a.w.m.snapshot_all(), &format!("{} All", describe(&a.w)));
    });
    ctx.phase("rotations", 48, 1200, |ctx, rng| {
        // the same master keys until every value is given
        let n = rng.range(1, 4);
        let max = n + rng.range(1, 12);
        let mut w = World::new(max as u32);
        let hier = rng.chance(1, 2);
        w.add_axis("axis", &(0..n).map(|i| format!("a{i}")).collect::<Vec<_>>(), hier);
        let mut a = must!(ctx, Auth::new(w), "setup");
        let Some(s) = master(ctx, &a, max as u32) else { return };
        use_all(ctx, rng, &a, &s);
        while a.w.room() > 0 && !ctx.violated() {
            let k = rng.range(1, 2).min(a.w.room() as usize);
            if rng.chance(1, 5) {
                let name = format!("axis{}", a.w.m.axes.len());
                a.w.add_axis(&name, &(0..k).map(|i| format!("a{i}")).collect::<Vec<_>>(), hier);
            } else {
                for _ in 0..k {
                    let all = a.w.m.all();
                    a.w.rotate(*rng.pick(&all));
                }
            }
            use_all(ctx, rng, &a, &s);
        }
        ctx.eval(Some(&describe(&a.w)));
    });
    ctx.phase("capacities", 67, 67, |ctx, rng| {
        // every small capacity, with attributes up to the last
        let max = ctx.case() as u32;
        let mut w = World::new(max);
        if max > 0 {
            let n = rng.range(1, (max as usize).min(40));
            w.add_axis("x", &(0..n).map(|i| i.to_string()).collect::<Vec<_>>(), false);
            while w.room() > 0 {
                let all = w.m.all();
                w.rotate(*rng.pick(&all));
            }
        }
        let a = must!(ctx, Auth::new(w), "setup for {max} values");
        let Some(s) = master(ctx, &a, max) else { return };
        if max > 0 {
            use_all(ctx, rng, &a, &s);
            let k = must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &AccessPolicy::All), "key for all");
            shares(ctx, &s, &k, &a.w.m.snapshot_all(), &format!("{} All", describe(&a.w)));
        }
        ctx.eval(Some(&format!("capacity {max}")));
    });
    ctx.phase("large", 8, 60, |ctx, rng| {
        let top = ctx.n(600, 2500) as usize;
        let max = *rng.pick(&[127, 128, 255, 256, 257, 300, 511, 512, top]);
        let mut w = World::new(max as u32);
        let mut left = max - rng.range(0, 1);
        let mut i = 0;
        while left > 0 {
            let n = rng.range(1, 120).min(left);
            let hier = rng.chance(1, 3);
            w.add_axis(&format!("axis {i}"), &(0..n).map(|i| i.to_string()).collect::<Vec<_>>(), hier);
            left -= n;
            i += 1;
        }
        while w.room() > 0 {
            let all = w.m.all();
            w.rotate(*rng.pick(&all));
        }
        let a = must!(ctx, Auth::new(w), "setup for {max} values");
        let Some(s) = master(ctx, &a, max as u32) else { return };
        // the attributes with the last values
        let mut l = a.w.m.all();
        l.sort_by_key(|x| std::cmp::Reverse(a.w.m.current(*x)));
        let far: Vec<At> = l.iter().take(3).copied().collect();
        let m = must!(ctx, a.message(), "message");
        let ct = must!(ctx, a.encrypt(&far, &m), "encrypt");
        explained(ctx, &s, &ct, &m, &a.w.m.currents(&far));
        let m = must!(ctx, a.message(), "message");
        let ct = must!(ctx, a.encrypt(&l, &m), "encrypt for all");
        explained(ctx, &s, &ct, &m, &a.w.m.currents(&l));
        for _ in 0..3 {
            let f = gen_formula(rng, &a.w.m, 10);
            let k = must!(ctx, a.key(&f), "key");
            shares(ctx, &s, &k, &a.w.m.snapshot(&f), &format!("{max} {}", f.shape()));
            match a.eng.decrypt(&ct, &k) {
                Ok(Some(p)) if p == m => {}
                _ => ctx.violation("a cipher text for all the attributes is not opened", json!({"formula": f.shape()})),
            }
            ctx.count("values used", 1);
        }
        ctx.eval(Some(&format!("large {max} {}", describe(&a.w).len())));
    });
    interfaces::run(ctx, interfaces::What::Exchange, (24, 24, 8), interfaces::masters);
}
