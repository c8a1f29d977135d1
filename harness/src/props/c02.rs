use super::*;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    workers: 8,
    rule: "random policies and formulas as C01; lists of attributes not satisfying the formula by the model: all the attributes but a minimal cut, sublists, satisfying lists with one attribute removed or swapped for a higher level or a namesake; the same over transparent groups in larger numbers; distinct = (policy, formula, list)",
    floors: &[
        ("refusals at the same places", 40),
        ("refusals", 500), ("maximal lists", 100), ("one attribute swapped", 50), ("formulas of more than 60 leaves", 4),
        ("transparent: refusals", 50000),
        ("C: refusals", 100),
        ("Python: refusals", 60),
        ("WebAssembly: refusals", 40),
    ],
    assumptions: &[MODEL],
};

pub fn refused<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, a: &Auth<S>, key: &S::UserDecryptionKey, f: &str, l: &[At]) {
    let msg = must!(ctx, a.message(), "message");
    let mut ct = must!(ctx, a.encrypt(l, &msg), "encrypt");
    let k2;
    let mut k = key;
    if rng.chance(1, 3) {
        k2 = must!(ctx, roundtrip(key), "user key");
        k = &k2;
        if !l.is_empty() {
            ct = must!(ctx, roundtrip(&ct), "cipher text");
        }
    }
    ctx.journal("decrypt");
    match a.eng.decrypt(&ct, k) {
        Ok(Some(m)) => ctx.violation(
            format!("an unsatisfied key decrypted ({})", if m == msg { "the message" } else { "another value" }),
            json!({"policy": describe(&a.w), "formula": f, "attributes": format!("{l:?}"),
                "key": hex::encode(enc(k)), "ciphertext": hex::encode(enc(&ct))}),
        ),
        Ok(None) => ctx.count("refused with no plaintext", 1),
        Err(_) => ctx.count("refused with an error", 1),
    }
    ctx.count("refusals", 1);
    ctx.eval(Some(&format!("{} {} {:?}", describe(&a.w), f, l)));
}

fn refused_symmetric<S: Scheme>(ctx: &mut Ctx, a: &Auth<S>, key: &S::UserDecryptionKey, f: &str, l: &[At]) {
    let (k, e) = must!(
        ctx,
        a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &a.w.m.attrs_of(l), 32),
        "symmetric key"
    );
    if let Ok(d) = a.eng.decrypt_symmetric_key(key, &e, 32) {
        ctx.violation(
            format!("an unsatisfied key gave a symmetric key ({})", if d == k { "the right one" } else { "another" }),
            json!({"policy": describe(&a.w), "formula": f, "attributes": format!("{l:?}")}),
        );
    }
    ctx.count("refusals", 1);
    ctx.count("symmetric keys refused", 1);
    ctx.eval(Some(&format!("{} {} {:?}", describe(&a.w), f, l)));
}

/// a satisfying list with one attribute replaced by a close one
fn swapped(rng: &mut Rng, m: &Model, f: &F) -> Vec<At> {
    let mut l = gen_sat(rng, m, f);
    l.sort_unstable();
    l.dedup();
    let i = rng.below(l.len());
    let (x, y) = l[i];
    let mut close = vec![];
    for j in 0..m.axes[x].attrs.len() {
        if j != y {
            close.push((x, j));
        }
    }
    for (k, ax) in m.axes.iter().enumerate() {
        for (j, n) in ax.attrs.iter().enumerate() {
            if k != x && (*n == m.axes[x].attrs[y] || j == y) {
                close.push((k, j));
            }
        }
    }
    if close.is_empty() || rng.chance(1, 4) {
        l.remove(i);
    } else {
        l[i] = *rng.pick(&close);
    }
    rng.shuffle(&mut l);
    l
}

/// lists one swap, one removal or a whole cut away from a satisfying one
fn around<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, a: &Auth<S>, key: &S::UserDecryptionKey, f: &F, n: usize) {
    let v = a.w.m.snapshot(f);
    let shape = f.shape();
    for i in 0..n {
        let l = if i % 2 == 0 { gen_unsat(rng, &a.w.m, f) } else { swapped(rng, &a.w.m, f) };
        if !v.eval(&a.w.m.currents(&l)) {
            refused(ctx, rng, a, key, &shape, &l);
        }
    }
}

fn run(ctx: &mut Ctx) {
    phases::<Sch>(ctx);
    #[cfg(feature = "clear")]
    phases::<crate::clear::Clr>(ctx);
    places::run(ctx, 8, |m| m.contains("not satisfied"), places::engine);
    interfaces::run(ctx, interfaces::What::Exchange, (24, 16, 8), interfaces::unsatisfied);
}

fn phases<S: Scheme>(ctx: &mut Ctx) {
    // (over the real groups, which take long to set up, only in depth)
    ctx.phase(&S::phase("many-values"), if S::CLEAR { 8 } else { !cfg!(feature = "clear") as u64 }, S::n(4, 6), |ctx, rng| {
        // attribute values which differ by 2^8 or 2^16: each against all the others
        let a = wide_values::<S>(rng, 65_900);
        for x in a.w.m.all() {
            let f = F::Attr(x);
            let key = must!(ctx, a.key(&f), "key");
            let c = a.w.m.covers(x);
            let l: Vec<At> = a.w.m.all().into_iter().filter(|y| !c.contains(y)).collect();
            refused(ctx, rng, &a, &key, &f.shape(), &l);
        }
        for _ in 0..4 {
            let f = gen_formula(rng, &a.w.m, 8);
            let key = must!(ctx, a.key(&f), "key");
            around(ctx, rng, &a, &key, &f, 4);
        }
    });
    ctx.phase(&S::phase("values-over-a-byte"), S::n(6, 40), S::n(60, 40), |ctx, rng| {
        let max = rng.range(257, 1200) as u32;
        let a = wide_values::<S>(rng, max);
        for x in a.w.m.all() {
            let f = F::Attr(x);
            let key = must!(ctx, a.key(&f), "key");
            let c = a.w.m.covers(x);
            let l: Vec<At> = a.w.m.all().into_iter().filter(|y| !c.contains(y)).collect();
            refused(ctx, rng, &a, &key, &f.shape(), &l);
        }
        let f = gen_formula(rng, &a.w.m, 8);
        let key = must!(ctx, a.key(&f), "key");
        around(ctx, rng, &a, &key, &f, 4);
    });
    ctx.phase(&S::phase("wide"), S::n(12, 6), S::n(100, 6), |ctx, rng| {
        // one attribute missing among many
        let n = rng.range(62, 140);
        let a = must!(ctx, Auth::<S>::make(flat(n)), "setup");
        let mut leaves = a.w.m.all();
        rng.shuffle(&mut leaves);
        let bias = *rng.pick(&[10, 10, 9]);
        let skew = rng.below(4);
        let f = gen_tree(rng, &leaves, bias, skew);
        let key = must!(ctx, a.key(&f), "key");
        around(ctx, rng, &a, &key, &f, 4);
        ctx.count("formulas of more than 60 leaves", 1);
    });
    ctx.phase(&S::phase("worlds"), S::n(320, 60), S::n(9000, 60), |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        for _ in 0..2 {
            let f = gen_formula(rng, &a.w.m, 12);
            let shape = f.shape();
            let key = must!(ctx, a.key(&f), "key");
            let v = a.w.m.snapshot(&f);
            ctx.sample(|| format!("policy {} formula {}", describe(&a.w), shape));
            for _ in 0..2 {
                let l = gen_unsat(rng, &a.w.m, &f);
                assert!(!v.eval(&a.w.m.currents(&l)), "model: satisfied");
                ctx.count("maximal lists", 1);
                refused(ctx, rng, &a, &key, &shape, &l);
            }
            for _ in 0..4 {
                let l = swapped(rng, &a.w.m, &f);
                if !v.eval(&a.w.m.currents(&l)) {
                    ctx.count("one attribute swapped", 1);
                    refused(ctx, rng, &a, &key, &shape, &l);
                }
            }
            let l = gen_unsat(rng, &a.w.m, &f);
            if !l.is_empty() {
                refused_symmetric(ctx, &a, &key, &shape, &l);
            }
            if ctx.violated() {
                return;
            }
        }
    });
    ctx.phase(&S::phase("large"), S::n(40, 40), S::n(400, 40), |ctx, rng| {
        let w = gen_world(rng, &LARGE);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        let leaves = gen_leaves(rng, &a.w.m, 1000);
        let (bias, skew) = (rng.range(3, 10), rng.below(4));
        let f = gen_tree(rng, &leaves, bias, skew);
        let key = must!(ctx, a.key(&f), "key");
        for _ in 0..4 {
            let l = gen_unsat(rng, &a.w.m, &f);
            ctx.count("maximal lists", 1);
            refused(ctx, rng, &a, &key, &f.shape(), &l);
        }
    });
    ctx.phase(&S::phase("all-lists"), S::n(64, 40), S::n(500, 40), |ctx, rng| {
        let p = Profile { axes: (1, 2), attrs: (1, 3), spare: (0, 1), rotations: (0, 2), plain: false };
        let w = gen_world(rng, &p);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        let all = a.w.m.all();
        let f = gen_formula(rng, &a.w.m, 5);
        let key = must!(ctx, a.key(&f), "key");
        let v = a.w.m.snapshot(&f);
        for mask in 0u32..1 << all.len() {
            let l: Vec<At> =
                all.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| *x).collect();
            if !v.eval(&a.w.m.currents(&l)) {
                refused(ctx, rng, &a, &key, &f.shape(), &l);
                if ctx.violated() {
                    return;
                }
            }
        }
    });
    ctx.phase(&S::phase("all-key"), S::n(64, 40), S::n(600, 40), |ctx, rng| {
        // a key for all attributes does not open what is encrypted for values given later
        let mut w = gen_world(rng, &Profile { spare: (3, 4), ..SMALL });
        let all = w.m.all();
        if w.room() < 2 {
            let m = w.m.max + 2;
            w.m.max = m;
            w.policy.max_attribute_creations = m;
        }
        let mut a = must!(ctx, Auth::<S>::make(w), "setup");
        let key = must!(
            ctx,
            a.eng.generate_user_key(&a.w.policy, &a.msk, &abe_policy::AccessPolicy::All),
            "key for all attributes"
        );
        let mut l = vec![];
        for _ in 0..2 {
            let x = *rng.pick(&all);
            a.w.rotate(x);
            l.push(x);
        }
        refused(ctx, rng, &a, &key, "All", &l);
    });
}
