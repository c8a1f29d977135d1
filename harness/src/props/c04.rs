use super::*;
use abe_policy::AccessPolicy;
use serde_json::json;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    workers: 8,
    rule: "random histories of axis additions, rotations, key generations (formulas and all attributes), delegations, encryptions and serializations under one set of master keys; every (key, cipher text) pair checked against the values of the attributes recorded by the model when each was made; the same over transparent groups in larger numbers; distinct = (history, key, cipher text)",
    floors: &[
        ("pairs opened", 1000),
        ("pairs refused", 1000),
        ("pairs separated by a rotation", 200),
        ("rotations", 300),
        ("refreshed keys opening both", 100),
        ("transparent: pairs separated by a rotation", 20000),
        ("C: policies compared", 10),
        ("Python: policies compared", 20),
        ("WebAssembly: policies compared", 4),
    ],
    assumptions: &[MODEL],
};

struct K<S: Scheme> {
    uk: S::UserDecryptionKey,
    f: Option<F>,
    v: V,
    at: usize,
}
struct C<S: Scheme> {
    ct: S::CipherText,
    msg: S::PlainText,
    l: Vec<At>,
    vals: BTreeSet<u32>,
    at: usize,
}

fn pair<S: Scheme>(ctx: &mut Ctx, a: &Auth<S>, h: &[String], k: &K<S>, c: &C<S>) {
    let expect = k.v.eval(&c.vals);
    ctx.journal("decrypt");
    let r = a.eng.decrypt(&c.ct, &k.uk);
    let detail = || {
        json!({"history": h, "key made at": k.at, "formula": k.f.as_ref().map(F::shape), "cipher text made at": c.at,
            "attributes": format!("{:?}", c.l)})
    };
    match (&r, expect) {
        (Ok(Some(m)), true) if *m == c.msg => ctx.count("pairs opened", 1),
        (Ok(Some(_)), true) => ctx.violation("another message", detail()),
        (Ok(None), true) => ctx.violation("a key that must open a cipher text does not", detail()),
        (Err(e), true) => ctx.violation(format!("a key that must open a cipher text does not: {e}"), detail()),
        (Ok(Some(m)), false) => ctx.violation(
            if *m == c.msg { "a key opens a cipher text it must not" } else { "an unsatisfied key gives a value" },
            detail(),
        ),
        (_, false) => ctx.count("pairs refused", 1),
    }
    // would the current names alone have said otherwise?
    if let Some(f) = &k.f {
        let names: BTreeSet<At> = c.l.iter().copied().collect();
        if by_names(&a.w.m, f, &names) != expect {
            ctx.count("pairs separated by a rotation", 1);
        }
    }
    ctx.eval(Some(&format!("{h:?} {} {}", k.at, c.at)));
}

fn by_names(m: &Model, f: &F, l: &BTreeSet<At>) -> bool {
    match f {
        F::Attr(a) => m.covers(*a).iter().any(|x| l.contains(x)),
        F::And(a, b) => by_names(m, a, l) && by_names(m, b, l),
        F::Or(a, b) => by_names(m, a, l) || by_names(m, b, l),
    }
}

fn history<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, steps: usize, capacity: u32) {
    let mut w = World::new(capacity);
    let hier = rng.chance(1, 2);
    let n = rng.range(1, 3);
    w.add_axis("first", &(0..n).map(|i| format!("a{i}")).collect::<Vec<_>>(), hier);
    let mut a = must!(ctx, Auth::<S>::make(w), "setup");
    let mut h: Vec<String> = vec![];
    let mut keys: Vec<K<S>> = vec![];
    let mut cts: Vec<C<S>> = vec![];
    for step in 0..steps {
        if ctx.violated() {
            return;
        }
        match rng.below(12) {
            0 if a.w.m.axes.len() < 4 => {
                let n = rng.range(1, 3);
                if a.w.room() as usize >= n {
                    let hier = rng.chance(1, 2);
                    let name = format!("axis {step}");
                    a.w.add_axis(&name, &(0..n).map(|i| format!("a{i}")).collect::<Vec<_>>(), hier);
                    h.push(format!("axis {n} {hier}"));
                    ctx.count("axes added", 1);
                }
            }
            1..=3 => {
                if a.w.room() > 0 {
                    let all = a.w.m.all();
                    let x = *rng.pick(&all);
                    a.w.rotate(x);
                    h.push(format!("rotate {x:?}"));
                    ctx.count("rotations", 1);
                }
            }
            4..=5 => {
                if rng.chance(1, 6) {
                    let uk = must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &AccessPolicy::All), "key for all");
                    keys.push(K { uk, f: None, v: a.w.m.snapshot_all(), at: step });
                    h.push("key All".into());
                } else {
                    // the formula of an earlier key again, most often
                    let f = match rng.below(3) {
                        0 if !keys.is_empty() => keys[rng.below(keys.len())].f.clone(),
                        _ => None,
                    };
                    let refreshed = f.is_some();
                    let f = f.unwrap_or_else(|| gen_formula(rng, &a.w.m, 5));
                    if a.w.m.well_formed(&f) {
                        let uk = must!(ctx, a.key(&f), "key");
                        let k = K { uk, v: a.w.m.snapshot(&f), f: Some(f), at: step };
                        h.push(format!("key {}", k.f.as_ref().unwrap().shape()));
                        if refreshed {
                            // opens all that any earlier key for the formula opened
                            for c in &cts {
                                if keys.iter().any(|o| o.f == k.f && o.v.eval(&c.vals)) && k.v.eval(&c.vals) {
                                    ctx.count("refreshed keys opening both", 1);
                                }
                            }
                        }
                        keys.push(k);
                    }
                }
            }
            6 if !keys.is_empty() => {
                // delegation under the current policy
                let p = rng.below(keys.len());
                let (f, expect) = {
                    let k = &keys[p];
                    match &k.f {
                        _ if rng.chance(1, 3) => (None, Some(true)),
                        None => {
                            // from a key for all attributes: any formula
                            let f = gen_formula(rng, &a.w.m, 4);
                            let mut l = vec![];
                            a.w.m.snapshot(&f).leaves(&mut l);
                            let mut held = vec![];
                            k.v.leaves(&mut held);
                            let ok = l.iter().all(|x| held.contains(x));
                            (Some(f), Some(ok))
                        }
                        Some(f) => {
                            let g = narrower(rng, f);
                            let mut l = vec![];
                            a.w.m.snapshot(&g).leaves(&mut l);
                            let mut held = vec![];
                            k.v.leaves(&mut held);
                            let ok = l.iter().all(|x| held.contains(x));
                            (Some(g), Some(ok))
                        }
                    }
                };
                let ap = f.as_ref().map_or(AccessPolicy::All, |f| a.w.m.access(f));
                let r = a.eng.delegate_user_key(&a.w.policy, &a.mdk, &keys[p].uk, &ap);
                ctx.count("delegations", 1);
                match (r, expect) {
                    (Ok(uk), Some(true)) => {
                        let v = f.as_ref().map_or(keys[p].v.clone(), |f| a.w.m.snapshot(f));
                        h.push(format!("delegate {p} {:?}", f.as_ref().map(F::shape)));
                        let f = f.or_else(|| keys[p].f.clone());
                        keys.push(K { uk, f, v, at: step });
                    }
                    (Err(_), Some(false)) => ctx.count("delegations of a rotated attribute refused", 1),
                    (Ok(_), Some(false)) => {
                        ctx.violation("delegation of a value the parent does not hold", json!({"history": h, "formula": f.map(|f| f.shape())}));
                    }
                    (Err(e), Some(true)) => {
                        ctx.violation(format!("delegation failed: {e}"), json!({"history": h, "formula": f.map(|f| f.shape())}));
                    }
                    _ => {}
                }
            }
            7 => {
                // everything stored and read again
                a.w.policy = serde_json::from_str(&a.w.policy.to_string()).expect("policy");
                a.w.check();
                for k in &mut keys {
                    k.uk = must!(ctx, roundtrip(&k.uk), "user key");
                }
                a.msk = must!(ctx, roundtrip(&a.msk), "master private key");
                a.mpk = must!(ctx, roundtrip(&a.mpk), "master public key");
                h.push("stored".into());
            }
            _ => {
                let l = match (keys.is_empty(), rng.below(4)) {
                    (false, 0..=1) => match &keys[rng.below(keys.len())].f {
                        Some(f) => gen_sat(rng, &a.w.m, f),
                        None => vec![*rng.pick(&a.w.m.all())],
                    },
                    (false, 2) => match &keys[rng.below(keys.len())].f {
                        Some(f) => gen_unsat(rng, &a.w.m, f),
                        None => vec![],
                    },
                    _ => {
                        let mut l = a.w.m.all();
                        rng.shuffle(&mut l);
                        let n = rng.range(1, l.len());
                        l.truncate(n);
                        l
                    }
                };
                let msg = must!(ctx, a.message(), "message");
                let ct = must!(ctx, a.encrypt(&l, &msg), "encrypt");
                let vals = a.w.m.currents(&l);
                h.push(format!("encrypt {l:?}"));
                cts.push(C { ct, msg, l, vals, at: step });
            }
        }
        if !keys.is_empty() && !cts.is_empty() && rng.chance(1, 2) {
            let (k, c) = (rng.below(keys.len()), rng.below(cts.len()));
            pair(ctx, &a, &h, &keys[k], &cts[c]);
        }
    }
    ctx.sample(|| h.join("; "));
    ctx.count("keys", keys.len() as u64);
    ctx.count("cipher texts", cts.len() as u64);
    for k in &keys {
        for c in &cts {
            pair(ctx, &a, &h, k, c);
            if ctx.violated() {
                return;
            }
        }
    }
}

/// A formula obtained by replacing some Or by And or one of their children
pub fn narrower(rng: &mut Rng, f: &F) -> F {
    match f {
        F::Attr(_) => f.clone(),
        F::And(a, b) => F::and(narrower(rng, a), narrower(rng, b)),
        F::Or(a, b) => match rng.below(5) {
            0 => narrower(rng, a),
            1 => narrower(rng, b),
            2 => F::and(narrower(rng, a), narrower(rng, b)),
            _ => F::or(narrower(rng, a), narrower(rng, b)),
        },
    }
}

fn run(ctx: &mut Ctx) {
    phases::<Sch>(ctx);
    #[cfg(feature = "clear")]
    phases::<crate::clear::Clr>(ctx);
    interfaces::run(ctx, interfaces::What::Exchange, (40, 32, 16), interfaces::rotation);
}

fn phases<S: Scheme>(ctx: &mut Ctx) {
    ctx.phase(&S::phase("histories"), S::n(160, 40), S::n(3000, 40), |ctx, rng| {
        let steps = rng.range(20, 40);
        let cap = rng.range(10, 30) as u32;
        history::<S>(ctx, rng, steps, cap);
    });
    ctx.phase(&S::phase("long"), S::n(8, 40), S::n(120, 40), |ctx, rng| history::<S>(ctx, rng, 110, 80));
    ctx.phase(&S::phase("many-values"), S::n(8, 40), S::n(80, 40), |ctx, rng| {
        // one attribute rotated many times: each cipher text opened by the keys
        // made since, and by the key of the last moment
        let rot = rng.range(8, 20);
        let mut w = World::new(4 + rot as u32);
        let hier = rng.chance(1, 2);
        w.add_axis("x", &["low".into(), "mid".into(), "top".into()], hier);
        w.add_axis("y", &["y".into()], false);
        let mut a = must!(ctx, Auth::<S>::make(w), "setup");
        let target = (0, rng.below(3));
        let f = F::and(F::Attr(target), F::Attr((1, 0)));
        let mut keys = vec![];
        let mut cts = vec![];
        let mut h = vec![];
        for i in 0..=rot {
            if i > 0 {
                let x = if rng.chance(3, 4) { target } else { (0, rng.below(3)) };
                a.w.rotate(x);
                h.push(format!("rotate {x:?}"));
                ctx.count("rotations", 1);
            }
            if rng.chance(1, 2) || i == rot {
                keys.push(K { uk: must!(ctx, a.key(&f), "key"), f: Some(f.clone()), v: a.w.m.snapshot(&f), at: i });
            }
            let l = vec![target, (1, 0)];
            let msg = must!(ctx, a.message(), "message");
            let ct = must!(ctx, a.encrypt(&l, &msg), "encrypt");
            cts.push(C { ct, msg, vals: a.w.m.currents(&l), l, at: i });
        }
        for k in &keys {
            for c in &cts {
                pair(ctx, &a, &h, k, c);
            }
        }
    });
}
