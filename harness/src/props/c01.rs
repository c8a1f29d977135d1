use super::*;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    workers: 8,
    rule: "random policies (hierarchy, rotations, names shared by axes, half of them filled to capacity), random formulas of disjoint leaves, lists of attributes satisfying them by the model; the same over transparent groups in larger numbers; distinct = (values of the policy, formula, list)",
    floors: &[
        ("decryptions at the same places", 20),
        ("decryptions", 300), ("uses of the last value", 20), ("formulas of 20 leaves or more", 5), ("all-attributes keys", 10), ("more than 64 components combined", 4),
        ("transparent: decryptions", 50000),
        ("transparent: more than 64 components combined", 20),
        ("C: headers exchanged", 60),
        ("Python: headers exchanged", 30),
        ("WebAssembly: headers exchanged", 15),
    ],
    assumptions: &[MODEL],
};

fn sig<S: Scheme>(a: &Auth<S>, f: &str, l: &[At]) -> String {
    format!("{} {} {:?}", describe(&a.w), f, l)
}

/// Encrypts for `l`, which must satisfy the key, and checks the decryptions
pub fn opens<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, a: &Auth<S>, key: &S::UserDecryptionKey, f: &str, l: &[At]) {
    let msg = if rng.chance(1, 4) {
        let n = rng.range(0, 31);
        let bytes = rng.bytes(n);
        match S::default().msg_encode(&bytes) {
            Ok(m) => m,
            Err(e) => {
                ctx.violation(format!("msg_encode of {n} bytes: {e}"), json!({}));
                return;
            }
        }
    } else {
        must!(ctx, a.message(), "message")
    };
    let mut ct = must!(ctx, a.encrypt(l, &msg), "encrypt");
    let through = rng.chance(1, 2);
    let k2;
    let mut k = key;
    if through {
        ct = must!(ctx, roundtrip(&ct), "cipher text");
        k2 = must!(ctx, roundtrip(key), "user key");
        k = &k2;
    }
    let detail = || json!({"policy": describe(&a.w), "formula": f, "attributes": format!("{l:?}"),
        "key": hex::encode(enc(k)), "ciphertext": hex::encode(enc(&ct))});
    ctx.journal("decrypt");
    match a.eng.decrypt(&ct, k) {
        Ok(Some(m)) if m == msg => {}
        Ok(Some(_)) => ctx.violation("decryption gave another message", detail()),
        Ok(None) => ctx.violation("satisfied key did not decrypt", detail()),
        Err(e) => ctx.violation(format!("satisfied key did not decrypt: {e}"), detail()),
    }
    ctx.count("decryptions", 1);
    if l.iter().any(|x| a.w.m.current(*x) == a.w.m.max) {
        ctx.count("uses of the last value", 1);
    }
    ctx.eval(Some(&sig(a, f, l)));
}

pub fn opens_symmetric<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, a: &Auth<S>, key: &S::UserDecryptionKey, f: &str, l: &[At]) {
    let n = *rng.pick(&[1usize, 16, 32, 32, 48, 64, 100, 135, 136, 137, 168, 200, 255, 256, 257, 272, 1000, 5000, 65_535, 65_536, 70_001]);
    let (k, e) = must!(
        ctx,
        a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &a.w.m.attrs_of(l), n),
        "symmetric key of {n} bytes"
    );
    let d = must!(ctx, a.eng.decrypt_symmetric_key(key, &e, n), "decryption of the symmetric key");
    if d != k || k.len() != n {
        ctx.violation(
            format!("the symmetric key of {n} bytes comes back different"),
            json!({"formula": f, "attributes": format!("{l:?}"), "policy": describe(&a.w)}),
        );
    }
    ctx.count("symmetric keys", 1);
    ctx.eval(Some(&sig(a, f, l)));
}

fn with_formula<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, a: &Auth<S>, f: &F, lists: usize) {
    let key = must!(ctx, a.key(f), "key");
    if f.size() >= 20 {
        ctx.count("formulas of 20 leaves or more", 1);
    }
    let shape = f.shape();
    ctx.sample(|| format!("policy {} formula {}", describe(&a.w), shape));
    for _ in 0..lists {
        let l = gen_sat(rng, &a.w.m, f);
        assert!(a.w.m.snapshot(f).eval(&a.w.m.currents(&l)), "model: unsatisfied");
        opens(ctx, rng, a, &key, &shape, &l);
        if ctx.violated() {
            return;
        }
    }
    let l = gen_sat(rng, &a.w.m, f);
    opens_symmetric(ctx, rng, a, &key, &shape, &l);
}

fn run(ctx: &mut Ctx) {
    phases::<Sch>(ctx);
    #[cfg(feature = "clear")]
    phases::<crate::clear::Clr>(ctx);
    places::run(ctx, 8, |m| m.contains("a satisfied key"), places::engine);
    interfaces::run(ctx, interfaces::What::Exchange, (24, 16, 8), interfaces::satisfied);
}

fn phases<S: Scheme>(ctx: &mut Ctx) {
    // (over the real groups, which take long to set up, only in depth)
    ctx.phase(&S::phase("many-values"), if S::CLEAR { 8 } else { !cfg!(feature = "clear") as u64 }, S::n(4, 6), |ctx, rng| {
        // attribute values which differ by 2^8 or 2^16
        let a = wide_values::<S>(rng, 65_900);
        for _ in 0..4 {
            let f = gen_formula(rng, &a.w.m, 8);
            with_formula(ctx, rng, &a, &f, 3);
        }
        for x in a.w.m.all() {
            let f = F::Attr(x);
            with_formula(ctx, rng, &a, &f, 1);
        }
    });
    ctx.phase(&S::phase("values-over-a-byte"), S::n(6, 40), S::n(60, 40), |ctx, rng| {
        let max = rng.range(257, 1200) as u32;
        let a = wide_values::<S>(rng, max);
        for _ in 0..3 {
            let f = gen_formula(rng, &a.w.m, 8);
            with_formula(ctx, rng, &a, &f, 2);
        }
    });
    ctx.phase(&S::phase("wide"), S::n(20, 6), S::n(200, 6), |ctx, rng| {
        // decryptions which combine many components
        let n = match ctx.case() {
            0 => rng.range(257, 280),
            _ => rng.range(62, 140),
        };
        let a = must!(ctx, Auth::<S>::make(flat(n)), "setup");
        let mut leaves = a.w.m.all();
        rng.shuffle(&mut leaves);
        let bias = *rng.pick(&[10, 10, 9]);
        let skew = rng.below(4);
        let f = gen_tree(rng, &leaves, bias, skew);
        let key = must!(ctx, a.key(&f), "key");
        let l = gen_sat(rng, &a.w.m, &f);
        if l.iter().collect::<std::collections::BTreeSet<_>>().len() > 64 {
            ctx.count("more than 64 components combined", 1);
        }
        opens(ctx, rng, &a, &key, &f.shape(), &l);
        if ctx.case() < 4 {
            opens_symmetric(ctx, rng, &a, &key, &f.shape(), &l);
        }
    });
    ctx.phase(&S::phase("worlds"), S::n(320, 60), S::n(8000, 60), |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        for _ in 0..2 {
            let f = gen_formula(rng, &a.w.m, 12);
            with_formula(ctx, rng, &a, &f, 2);
        }
    });
    ctx.phase(&S::phase("capacity"), S::n(160, 40), S::n(1600, 40), |ctx, rng| {
        // the last value the policy allows, given by a rotation or a creation
        let mut w = gen_world(rng, &SMALL);
        while w.room() > 0 {
            let all = w.m.all();
            w.rotate(*rng.pick(&all));
        }
        let last = w.m.all().into_iter().find(|x| w.m.current(*x) == w.m.max).expect("model: last");
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        let mut f = F::Attr(last);
        for _ in 0..2 {
            let key = must!(ctx, a.key(&f), "key");
            let mut l = gen_sat(rng, &a.w.m, &f);
            l.push(last);
            opens(ctx, rng, &a, &key, &f.shape(), &l);
            opens_symmetric(ctx, rng, &a, &key, &f.shape(), &[last]);
            for _ in 0..10 {
                let g = gen_formula(rng, &a.w.m, 6);
                let h = F::or(F::Attr(last), g);
                if a.w.m.well_formed(&h) {
                    f = h;
                    break;
                }
            }
        }
    });
    ctx.phase(&S::phase("large"), S::n(40, 40), S::n(500, 40), |ctx, rng| {
        let w = gen_world(rng, &LARGE);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        let mut leaves = gen_leaves(rng, &a.w.m, 1000);
        for x in gen_leaves(rng, &a.w.m, 1000) {
            if !leaves.contains(&x) && !a.w.m.axes[x.0].hier {
                leaves.push(x);
            }
        }
        let bias = rng.range(2, 8);
        let skew = rng.below(4);
        let f = gen_tree(rng, &leaves, bias, skew);
        with_formula(ctx, rng, &a, &f, 2);
    });
    ctx.phase(&S::phase("deep"), S::n(24, 40), S::n(300, 40), |ctx, rng| {
        // one flat axis and a comb of up to 60 leaves
        let n = rng.range(20, 60);
        let a = must!(ctx, Auth::<S>::make(flat(n)), "setup");
        let mut leaves = a.w.m.all();
        rng.shuffle(&mut leaves);
        let (bias, skew) = (*rng.pick(&[0, 3, 5, 7, 10]), rng.range(1, 3));
        let f = gen_tree(rng, &leaves, bias, skew);
        with_formula(ctx, rng, &a, &f, 2);
    });
    ctx.phase(&S::phase("all-key"), S::n(120, 40), S::n(1500, 40), |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        let key = must!(
            ctx,
            a.eng.generate_user_key(&a.w.policy, &a.msk, &abe_policy::AccessPolicy::All),
            "key for all attributes"
        );
        ctx.count("all-attributes keys", 1);
        for _ in 0..3 {
            let mut l = a.w.m.all();
            rng.shuffle(&mut l);
            let n = rng.range(1, l.len());
            l.truncate(n);
            opens(ctx, rng, &a, &key, "All", &l);
        }
        opens_symmetric(ctx, rng, &a, &key, "All", &a.w.m.all());
    });
    ctx.phase(&S::phase("expressions"), S::n(60, 40), S::n(600, 40), |ctx, rng| {
        // access policies and policies in their textual forms
        let p = Profile { plain: true, ..MEDIUM };
        let w = gen_world(rng, &p);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        let policy: abe_policy::Policy =
            serde_json::from_str(&a.w.policy.to_string()).expect("policy JSON");
        let f = gen_formula(rng, &a.w.m, 8);
        let ap = crate::model::read_text(&a.w.m.expression(&f))
            .expect("expression");
        let key = must!(ctx, a.eng.generate_user_key(&policy, &a.msk, &ap), "key");
        let l = gen_sat(rng, &a.w.m, &f);
        opens(ctx, rng, &a, &key, &f.shape(), &l);
    });
    ctx.phase(&S::phase("all-lists"), S::n(48, 40), S::n(400, 40), |ctx, rng| {
        // every list of attributes of a small policy, in the order of the policy
        let p = Profile { axes: (1, 2), attrs: (1, 3), spare: (0, 1), rotations: (0, 1), plain: false };
        let w = gen_world(rng, &p);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        let all = a.w.m.all();
        let f = gen_formula(rng, &a.w.m, 5);
        let key = must!(ctx, a.key(&f), "key");
        let v = a.w.m.snapshot(&f);
        for mask in 1u32..1 << all.len() {
            let l: Vec<At> =
                all.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| *x).collect();
            if v.eval(&a.w.m.currents(&l)) {
                opens(ctx, rng, &a, &key, &f.shape(), &l);
                if ctx.violated() {
                    return;
                }
            }
        }
    });
}
