use super::*;
use crate::ffi;
use crate::reference as r;
use abe_policy::{AccessPolicy, Attribute, Policy};
use serde_json::json;
use std::collections::{BTreeSet, BinaryHeap};

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    workers: 8,
    rule: "random policies and, for each, requests made ill-formed one way at a time (names unknown, near misses, of other axes; All inside formulas; repeated and overlapping leaves; attributes without values; keys of smaller policies; blocks and keys of wrong sizes; truncated texts) through the native and C functions: each must be refused, or give a key opening exactly what the model says; distinct = (kind, function, policy, request)",
    floors: &[
        ("unknown names refused", 1500),
        ("All inside a formula refused", 300),
        ("repeated leaves refused", 200),
        ("missing values refused", 200),
        ("small keys refused", 200),
        ("small keys used", 100),
        ("blocks refused", 200),
        ("texts refused", 500),
        ("messages refused", 100),
        ("empty lists never opened", 30),
        ("C: exceptions compared", 300),
        ("Python: exceptions compared", 300),
        ("WebAssembly: exceptions compared", 100),
    ],
    assumptions: &[MODEL, REF],
};

fn refused<T, E: std::fmt::Display>(ctx: &mut Ctx, got: Option<Result<T, E>>, what: &str, kind: &str, detail: impl Fn() -> String) {
    match got {
        None => {}
        Some(Err(_)) => ctx.count(kind, 1),
        Some(Ok(_)) => ctx.violation(format!("{what} is accepted"), json!({"request": detail()})),
    }
    ctx.eval(Some(&format!("{what} {}", detail())));
}

/// A key must be refused, or open exactly what the model says
fn exact<E: std::fmt::Display>(ctx: &mut Ctx, rng: &mut Rng, a: &Auth, got: Option<Result<Uk, E>>, v: &V, what: &str, kind: &str, detail: impl Fn() -> String) {
    ctx.eval(Some(&format!("{what} {}", detail())));
    let k = match got {
        None => return,
        Some(Err(_)) => return ctx.count(kind, 1),
        Some(Ok(k)) => k,
    };
    for _ in 0..8 {
        let mut l = a.w.m.all();
        rng.shuffle(&mut l);
        let n = rng.range(1, l.len());
        l.truncate(n);
        let m = must!(ctx, a.message(), "message");
        let ct = must!(ctx, a.encrypt(&l, &m), "encrypt");
        let opened = matches!(ctx.guard("decrypt", || a.eng.decrypt(&ct, &k)), Some(Ok(Some(x))) if x == m);
        if opened != v.eval(&a.w.m.currents(&l)) {
            ctx.violation(format!("{what} gives a key with another meaning"), json!({"request": detail(), "attributes": format!("{l:?}"), "opens": opened}));
            return;
        }
        ctx.count("uses of keys given", 1);
    }
}

/// Names which are not of the policy, most of them close to one which is
fn unknown(rng: &mut Rng, m: &Model) -> Attribute {
    loop {
        let all = m.all();
        let x = m.attr(*rng.pick(&all));
        let other = m.attr(*rng.pick(&all));
        let near = |rng: &mut Rng, s: &str| -> String {
            match rng.below(8) {
                0 => s.to_uppercase(),
                1 => s.to_lowercase(),
                2 => format!("{s} "),
                3 => format!(" {s}"),
                4 => String::new(),
                5 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
                6 => format!("{s}{s}"),
                _ => "nobody".into(),
            }
        };
        let (axis, name) = match rng.below(6) {
            0 => (near(rng, &x.axis), x.name.clone()),
            1 | 2 => (x.axis.clone(), near(rng, &x.name)),
            3 => (x.axis.clone(), other.name.clone()),
            4 => (x.name.clone(), x.axis.clone()),
            _ => (x.axis.clone(), x.axis.clone()),
        };
        if m.axes.iter().any(|a| a.name == axis && a.attrs.contains(&name)) {
            continue;
        }
        return Attribute::new(&axis, &name);
    }
}

/// The access policy with one of its leaves replaced
fn replace(p: &AccessPolicy, k: &mut usize, at: usize, by: &AccessPolicy) -> AccessPolicy {
    match p {
        AccessPolicy::And(a, b) => {
            let a = replace(a, k, at, by);
            AccessPolicy::And(Box::new(a), Box::new(replace(b, k, at, by)))
        }
        AccessPolicy::Or(a, b) => {
            let a = replace(a, k, at, by);
            AccessPolicy::Or(Box::new(a), Box::new(replace(b, k, at, by)))
        }
        x => {
            *k += 1;
            if *k - 1 == at { by.clone() } else { x.clone() }
        }
    }
}

macro_rules! js {
    ($t:expr) => {
        serde_json::to_string($t).expect("json")
    };
}

fn names(ctx: &mut Ctx, rng: &mut Rng) {
    let p = profile(rng);
    let w = gen_world(rng, p);
    let a = must!(ctx, Auth::new(w), "setup");
    let pol = &a.w.policy;
    let pj = pol.to_string();
    let all_key = must!(ctx, a.eng.generate_user_key(pol, &a.msk, &AccessPolicy::All), "key for all");
    let handle = must!(ctx, ffi::enc_create(&pj, &enc(&a.mpk)), "encryption cache");
    for _ in 0..5 {
        let u = unknown(rng, &a.w.m);
        let f = gen_formula(rng, &a.w.m, 6);
        let good = a.w.m.access(&f);
        let leaf = rng.below(f.size());
        let bad = replace(&good, &mut 0, leaf, &AccessPolicy::Attr(u.clone()));
        let alone = AccessPolicy::Attr(u.clone());
        let ap = if rng.chance(1, 3) { alone } else { bad };
        let d = || format!("{} {u:?} {}", describe(&a.w), js!(&ap));
        ctx.sample(d);
        let k = "unknown names refused";
        let x = ctx.guard("user key", || a.eng.generate_user_key(pol, &a.msk, &ap));
        refused(ctx, x, "a user key naming an unknown attribute", k, d);
        let own = must!(ctx, a.key(&f), "key");
        for parent in [&all_key, &own] {
            let x = ctx.guard("delegation", || a.eng.delegate_user_key(pol, &a.mdk, parent, &ap));
            refused(ctx, x, "a delegation naming an unknown attribute", k, d);
        }
        // lists
        let mut l = a.w.m.attrs_of(&gen_sat(rng, &a.w.m, &f));
        let at = rng.range(0, l.len());
        l.insert(at, u.clone());
        if rng.chance(1, 4) {
            l = vec![u.clone()];
        }
        let dl = || format!("{} {u:?} {}", describe(&a.w), js!(&l));
        let m = must!(ctx, a.message(), "message");
        let x = ctx.guard("encrypt", || a.eng.encrypt(pol, &a.mpk, &l, &m));
        refused(ctx, x, "an encryption for an unknown attribute", k, dl);
        let x = ctx.guard("symmetric key", || a.eng.generate_symmetric_key(pol, &a.mpk, &l, 32));
        refused(ctx, x, "a symmetric key for an unknown attribute", k, dl);
        let x = ctx.guard("header", || hy::encrypt_header(pol, &a.mpk, &l, None));
        refused(ctx, x, "a header for an unknown attribute", k, dl);
        let mut p2 = pol.clone();
        let x = ctx.guard("rotate", || p2.rotate(&u));
        refused(ctx, x, "the rotation of an unknown attribute", k, dl);
        // the C functions; the textual form of attributes ignores the spaces around it
        let t = u.to_string();
        if rng.chance(1, 2) && t.trim() == t {
            let x = ctx.guard("C user key", || ffi::user_key(&enc(&a.msk), &js!(&ap), &pj));
            refused(ctx, x, "a C user key naming an unknown attribute", k, d);
            let x = ctx.guard("C header", || ffi::enc_header(&pj, &enc(&a.mpk), &js!(&l), b"u", b""));
            refused(ctx, x, "a C header for an unknown attribute", k, dl);
            let x = ctx.guard("C header with cache", || ffi::enc_cached(handle, &js!(&l), b"u", b""));
            refused(ctx, x, "a C header for an unknown attribute with a cache", k, dl);
            let x = ctx.guard("C rotation", || ffi::rotate(&js!(&l), &pj));
            refused(ctx, x, "the C rotation of an unknown attribute", k, dl);
        }
        if ctx.violated() {
            break;
        }
    }
    ffi::enc_destroy(handle);
}

/// What the access policy means: All is any value
fn meaning(m: &Model, p: &AccessPolicy) -> V {
    match p {
        AccessPolicy::All => m.snapshot_all(),
        AccessPolicy::And(a, b) => V::And(Box::new(meaning(m, a)), Box::new(meaning(m, b))),
        AccessPolicy::Or(a, b) => V::Or(Box::new(meaning(m, a)), Box::new(meaning(m, b))),
        AccessPolicy::Attr(x) => {
            let i = m.axes.iter().position(|a| a.name == x.axis).expect("axis");
            let j = m.axes[i].attrs.iter().position(|a| *a == x.name).expect("attribute");
            V::Any(m.cover_values((i, j)))
        }
    }
}

fn formulas(ctx: &mut Ctx, rng: &mut Rng) {
    let p = if rng.chance(1, 5) { &MEDIUM } else { &SMALL };
    let w = gen_world(rng, p);
    let a = must!(ctx, Auth::new(w), "setup");
    let all_key = must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &AccessPolicy::All), "key for all");
    // All inside a formula
    for _ in 0..3 {
        let f = gen_formula(rng, &a.w.m, 5);
        let good = a.w.m.access(&f);
        let bx = Box::new;
        let bad = match rng.below(5) {
            0 => AccessPolicy::And(bx(good), bx(AccessPolicy::All)),
            1 => AccessPolicy::Or(bx(AccessPolicy::All), bx(good)),
            2 => AccessPolicy::And(bx(AccessPolicy::All), bx(AccessPolicy::All)),
            3 => AccessPolicy::Or(bx(AccessPolicy::All), bx(AccessPolicy::All)),
            _ => {
                let at = rng.below(f.size());
                let r = replace(&good, &mut 0, at, &AccessPolicy::All);
                if r == AccessPolicy::All { AccessPolicy::Or(bx(r), bx(good)) } else { r }
            }
        };
        let v = meaning(&a.w.m, &bad);
        let d = || format!("{} {}", describe(&a.w), js!(&bad));
        let k = "All inside a formula refused";
        let x = ctx.guard("user key", || a.eng.generate_user_key(&a.w.policy, &a.msk, &bad));
        exact(ctx, rng, &a, x, &v, "All inside a formula", k, d);
        let x = ctx.guard("delegation", || a.eng.delegate_user_key(&a.w.policy, &a.mdk, &all_key, &bad));
        exact(ctx, rng, &a, x, &v, "All inside a delegated formula", k, d);
        let x = ctx.guard("C user key", || ffi::user_key(&enc(&a.msk), &js!(&bad), &a.w.policy.to_string()))
            .map(|r| r.map(|b| dec::<Uk>(&b).expect("key")));
        exact(ctx, rng, &a, x, &v, "All inside a formula given to the C function", k, d);
    }
    // leaves repeated, or overlapping in a hierarchical axis
    for _ in 0..6 {
        let all = a.w.m.all();
        let mut l: Vec<At> = (0..rng.range(1, 5)).map(|_| *rng.pick(&all)).collect();
        let x = *rng.pick(&l);
        l.push(match a.w.m.axes[x.0].hier {
            true => (x.0, rng.below(a.w.m.axes[x.0].attrs.len())),
            false => x,
        });
        rng.shuffle(&mut l);
        let (bias, skew) = (rng.range(0, 10), rng.below(4));
        let f = gen_tree(rng, &l, bias, skew);
        if a.w.m.well_formed(&f) {
            continue;
        }
        let v = a.w.m.snapshot(&f);
        let d = || format!("{} {}", describe(&a.w), f.shape());
        let k = "repeated leaves refused";
        let x = ctx.guard("user key", || a.key(&f));
        exact(ctx, rng, &a, x, &v, "a formula repeating an attribute", k, d);
        let x = ctx.guard("delegation", || a.eng.delegate_user_key(&a.w.policy, &a.mdk, &all_key, &a.w.m.access(&f)));
        exact(ctx, rng, &a, x, &v, "a delegated formula repeating an attribute", k, d);
    }
    // no attribute at all
    let m = must!(ctx, a.message(), "message");
    let ct = ctx.guard("encrypt for nothing", || a.eng.encrypt(&a.w.policy, &a.mpk, &[], &m));
    let h = ctx.guard("header for nothing", || hy::encrypt_header(&a.w.policy, &a.mpk, &[], None));
    let f = gen_formula(rng, &a.w.m, 5);
    let own = must!(ctx, a.key(&f), "key");
    for k in [&all_key, &own] {
        if let Some(Ok(ct)) = &ct {
            if let Some(Ok(Some(_))) = ctx.guard("decrypt", || a.eng.decrypt(ct, k)) {
                ctx.violation("a cipher text for no attribute is opened", json!({"formula": f.shape()}));
            }
        }
        if let Some(Ok((_, h))) = &h {
            if let Some(Ok(_)) = ctx.guard("header decryption", || hy::decrypt_header(k, h)) {
                ctx.violation("a header for no attribute is opened", json!({"formula": f.shape()}));
            }
        }
        ctx.count("empty lists never opened", 1);
    }
}

/// Policies some of whose attributes have no value
fn missing(ctx: &mut Ctx, rng: &mut Rng) {
    let p = if rng.chance(1, 4) { &MEDIUM } else { &SMALL };
    let w = gen_world(rng, p);
    let a = must!(ctx, Auth::new(w), "setup");
    let parent = must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &AccessPolicy::All), "key for all");
    for _ in 0..4 {
        let x = *rng.pick(&a.w.m.all());
        let mut pol: Policy = a.w.policy.clone();
        let empty = rng.chance(1, 2);
        if empty {
            pol.attribute_to_int.insert(a.w.m.attr(x), BinaryHeap::new());
        } else {
            pol.attribute_to_int.remove(&a.w.m.attr(x));
        }
        let f = gen_formula(rng, &a.w.m, 6);
        let mut leaves = vec![];
        f.leaves(&mut leaves);
        // a leaf standing for the attribute
        let mut y = x;
        if a.w.m.axes[x.0].hier {
            y.1 = rng.range(x.1, a.w.m.axes[x.0].attrs.len() - 1);
        }
        let f = if leaves.iter().any(|l| a.w.m.covers(*l).contains(&x)) {
            f
        } else {
            let g = F::Attr(y);
            let h = if rng.chance(1, 2) { F::and(f, g.clone()) } else { F::or(f, g.clone()) };
            if a.w.m.well_formed(&h) && rng.chance(3, 4) { h } else { g }
        };
        let ap = a.w.m.access(&f);
        let d = || format!("{} {x:?} {empty} {}", describe(&a.w), f.shape());
        let k = "missing values refused";
        let g = ctx.guard("user key", || a.eng.generate_user_key(&pol, &a.msk, &ap));
        refused(ctx, g, "a key for an attribute without value", k, d);
        let g = ctx.guard("delegation", || a.eng.delegate_user_key(&pol, &a.mdk, &parent, &ap));
        refused(ctx, g, "a delegation for an attribute without value", k, d);
        let mut l = gen_sat(rng, &a.w.m, &f);
        l.push(x);
        let m = must!(ctx, a.message(), "message");
        let g = ctx.guard("encrypt", || a.eng.encrypt(&pol, &a.mpk, &a.w.m.attrs_of(&l), &m));
        refused(ctx, g, "an encryption for an attribute without value", k, d);
        let g = ctx.guard("header", || hy::encrypt_header(&pol, &a.mpk, &a.w.m.attrs_of(&l), None));
        refused(ctx, g, "a header for an attribute without value", k, d);
        // the others are not concerned
        let others: Vec<At> = a.w.m.all().into_iter().filter(|o| !a.w.m.covers(*o).contains(&x)).collect();
        if !others.is_empty() {
            let o = *rng.pick(&others);
            let key = must!(ctx, a.eng.generate_user_key(&pol, &a.msk, &a.w.m.access(&F::Attr(o))), "key for another attribute");
            let ct = must!(ctx, a.eng.encrypt(&pol, &a.mpk, &a.w.m.attrs_of(&[o]), &m), "encryption for another attribute");
            match a.eng.decrypt(&ct, &key) {
                Ok(Some(z)) if z == m => ctx.count("other attributes used", 1),
                _ => ctx.violation("an attribute with values does not work", json!({"request": d()})),
            }
        }
        if ctx.violated() {
            return;
        }
    }
    // policies without any value
    for pol in [Policy::new(10), {
        let mut p = a.w.policy.clone();
        for h in p.attribute_to_int.values_mut() {
            h.clear();
        }
        p
    }] {
        let g = ctx.guard("user key", || a.eng.generate_user_key(&pol, &a.msk, &AccessPolicy::All));
        refused(ctx, g, "a key for all the attributes of an empty policy", "missing values refused", || describe(&a.w));
    }
}

/// Keys of a smaller policy
fn small(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 10);
    let cap = rng.range(1, n);
    let mut w = World::new((n + 4) as u32);
    let hier = rng.chance(1, 3);
    w.add_axis("x", &(0..n).map(|i| i.to_string()).collect::<Vec<_>>(), hier);
    for _ in 0..rng.range(0, 3) {
        let all = w.m.all();
        w.rotate(*rng.pick(&all));
    }
    // keys for `cap` values only
    let eng = Eng::new();
    let (msk, mpk, mdk) = must!(ctx, eng.generate_master_key(&Policy::new(cap as u32)), "small master keys");
    let full = must!(ctx, Auth::new(w.clone()), "setup");
    let a = Auth { w, eng, msk, mpk, mdk };
    let Some(have) = r::RMpk::parse(&enc(&a.mpk)).map(|k| k.t.len() as u32) else {
        return ctx.violation("master public key format", json!({}));
    };
    let full_all = must!(ctx, full.eng.generate_user_key(&full.w.policy, &full.msk, &AccessPolicy::All), "key for all");
    for _ in 0..6 {
        let f = gen_formula(rng, &a.w.m, 4);
        let v = a.w.m.snapshot(&f);
        let mut l = vec![];
        v.leaves(&mut l);
        let fits = l.iter().all(|x| *x < have);
        let d = || format!("{cap} {} {}", describe(&a.w), f.shape());
        let g = ctx.guard("user key", || a.key(&f));
        let list = gen_sat(rng, &a.w.m, &f);
        let vals = a.w.m.currents(&list);
        let m = must!(ctx, a.message(), "message");
        let c = ctx.guard("encrypt", || a.encrypt(&list, &m));
        let lfits = vals.iter().all(|x| *x < have);
        match (&g, fits) {
            (Some(Ok(k)), true) => match (&c, lfits) {
                (Some(Ok(c)), true) => match a.eng.decrypt(c, k) {
                    Ok(Some(x)) if x == m => ctx.count("small keys used", 1),
                    _ => ctx.violation("keys large enough for the attributes do not work", json!({"request": d()})),
                },
                (Some(Err(e)), true) => ctx.violation(format!("a public key large enough is refused: {e}"), json!({"request": d()})),
                _ => {}
            },
            (Some(Err(e)), true) => ctx.violation(format!("a private key large enough is refused: {e}"), json!({"request": d()})),
            _ => {}
        }
        if !fits {
            refused(ctx, g, "a private key too small", "small keys refused", d);
            // a delegation key too small for the key delegated
            let x = ctx.guard("delegation", || a.eng.delegate_user_key(&a.w.policy, &a.mdk, &full_all, &a.w.m.access(&f)));
            refused(ctx, x, "a delegation key too small", "small keys refused", d);
        }
        if !lfits {
            refused(ctx, c, "a public key too small", "small keys refused", d);
        }
    }
    let all: BTreeSet<u32> = {
        let mut l = vec![];
        a.w.m.snapshot_all().leaves(&mut l);
        l.into_iter().collect()
    };
    if all.iter().any(|x| *x >= have) {
        let g = ctx.guard("user key", || a.eng.generate_user_key(&a.w.policy, &a.msk, &AccessPolicy::All));
        refused(ctx, g, "a private key too small for all attributes", "small keys refused", || describe(&a.w));
        let g = ctx.guard("delegation", || a.eng.delegate_user_key(&a.w.policy, &a.mdk, &full_all, &AccessPolicy::All));
        refused(ctx, g, "a delegation key too small for the same key", "small keys refused", || describe(&a.w));
    }
}

fn block<const N: usize>(ctx: &mut Ctx, rng: &mut Rng) {
    let (key, uid) = (rng.bytes(32), rng.bytes(16));
    let n = rng.below(5);
    let k = "blocks refused";
    let x = ctx.guard("block", || hy::enc_block_n::<N>(&key, &uid, n, &[]));
    refused(ctx, x, "an empty block", k, || format!("{N}"));
    let x = ctx.guard("block", || hy::dec_block_n::<N>(&key, &uid, n, &[]));
    refused(ctx, x, "an empty encrypted block", k, || format!("{N}"));
    for more in [1, 2, 15, 16, 100] {
        let big = rng.bytes(N + more);
        let x = ctx.guard("block", || hy::enc_block_n::<N>(&key, &uid, n, &big));
        refused(ctx, x, "a block too large", k, || format!("{N} {more}"));
        // an encrypted block made with a larger limit
        if let Ok(b) = hy::enc_block_n::<{ hy::MAX }>(&key, &uid, n, &big) {
            let x = ctx.guard("block", || hy::dec_block_n::<N>(&key, &uid, n, &b));
            refused(ctx, x, "an encrypted block too large", k, || format!("{N} {more}"));
        }
    }
    // up to the limit
    let data = rng.bytes(N);
    let b = must!(ctx, hy::enc_block_n::<N>(&key, &uid, n, &data), "block of the maximal size");
    let d = must!(ctx, hy::dec_block_n::<N>(&key, &uid, n, &b), "decryption of a block of the maximal size");
    if d != data {
        ctx.violation("a block of the maximal size comes back different", json!({"max": N}));
    }
    // encrypted blocks too short to hold anything
    for s in 1..=28usize {
        let x = ctx.guard("block", || hy::dec_block_n::<N>(&key, &uid, n, &b[..s.min(b.len() - 1)]));
        refused(ctx, x, "a truncated block", k, || format!("{N} {s}"));
    }
    // keys of another length
    for s in [0usize, 1, 16, 31, 33, 64] {
        let kb = rng.bytes(s);
        let x = ctx.guard("C block", || ffi::enc_block(&kb, &uid, 0, &data));
        refused(ctx, x, "a symmetric key of another length", k, || format!("{N} {s}"));
        let x = ctx.guard("C block", || ffi::dec_block(&kb, &uid, 0, &b));
        refused(ctx, x, "a symmetric key of another length", k, || format!("{N} {s}"));
    }
    let x = ctx.guard("C block", || ffi::enc_block(&key, &uid, 0, &[]));
    refused(ctx, x, "an empty C block", k, || format!("{N}"));
    let x = ctx.guard("C block", || ffi::dec_block(&key, &uid, 0, &[]));
    refused(ctx, x, "an empty encrypted C block", k, || format!("{N}"));
}

/// Strict prefixes of JSON texts given to the C functions
fn texts(ctx: &mut Ctx, rng: &mut Rng) {
    let w = gen_world(rng, &SMALL);
    let a = must!(ctx, Auth::new(w), "setup");
    let f = gen_formula(rng, &a.w.m, 4);
    let (pj, fj) = (a.w.policy.to_string(), js!(&a.w.m.access(&f)));
    let lj = js!(&a.w.m.attrs_of(&gen_sat(rng, &a.w.m, &f)));
    let (sb, mb) = (enc(&a.msk), enc(&a.mpk));
    let k = "texts refused";
    let cut = |rng: &mut Rng, s: &str| loop {
        let n = rng.below(s.len());
        if s.is_char_boundary(n) {
            return s[..n].to_string();
        }
    };
    for _ in 0..10 {
        let (p, q, l) = (cut(rng, &pj), cut(rng, &fj), cut(rng, &lj));
        let x = ctx.guard("C master keys", || ffi::master_keys(&p));
        refused(ctx, x, "a truncated policy", k, || p.clone());
        let x = ctx.guard("C user key", || ffi::user_key(&sb, &fj, &p));
        refused(ctx, x, "a truncated policy", k, || p.clone());
        let x = ctx.guard("C user key", || ffi::user_key(&sb, &q, &pj));
        refused(ctx, x, "a truncated access policy", k, || q.clone());
        let x = ctx.guard("C header", || ffi::enc_header(&p, &mb, &lj, b"", b""));
        refused(ctx, x, "a truncated policy", k, || p.clone());
        let x = ctx.guard("C header", || ffi::enc_header(&pj, &mb, &l, b"", b""));
        refused(ctx, x, "a truncated list of attributes", k, || l.clone());
        let x = ctx.guard("C rotation", || ffi::rotate(&l, &pj));
        refused(ctx, x, "a truncated list of attributes", k, || l.clone());
        let x = ctx.guard("C rotation", || ffi::rotate(&lj, &p));
        refused(ctx, x, "a truncated policy", k, || p.clone());
        let x = ctx.guard("C cache", || ffi::enc_create(&p, &mb));
        refused(ctx, x, "a truncated policy", k, || p.clone());
        // keys cut
        let (sc, mc) = (&sb[..rng.below(sb.len())], &mb[..rng.below(mb.len())]);
        let x = ctx.guard("C user key", || ffi::user_key(sc, &fj, &pj));
        refused(ctx, x, "a truncated master private key", k, || sc.len().to_string());
        let x = ctx.guard("C header", || ffi::enc_header(&pj, mc, &lj, b"", b""));
        refused(ctx, x, "a truncated master public key", k, || mc.len().to_string());
    }
}

fn messages(ctx: &mut Ctx, rng: &mut Rng) {
    let s = Sch::default();
    let k = "messages refused";
    for n in [33usize, 34, 48, 64, 100, 1000] {
        let b = rng.bytes(n);
        let x = ctx.guard("msg_encode", || s.msg_encode(&b));
        refused(ctx, x, "a message too long", k, || n.to_string());
        let z = vec![0; n];
        let x = ctx.guard("msg_encode", || s.msg_encode(&z));
        refused(ctx, x, "a message too long", k, || format!("zeros {n}"));
    }
    // 32 bytes: scalars below the order only
    let order = r::int(-1).to_bytes();
    let mut b = order.to_vec();
    if ctx.guard("msg_encode", || s.msg_encode(&b)).is_some_and(|x| x.is_err()) {
        ctx.violation("the largest message is refused", json!({}));
    }
    b[0] += 1;
    for _ in 0..4 {
        let x = ctx.guard("msg_encode", || s.msg_encode(&b));
        refused(ctx, x, "a message over the order", k, || hex::encode(&b));
        b = rng.bytes(32);
        b[31] = rng.range(0x74, 0xff) as u8;
    }
    // distinct messages are encoded differently
    let mut seen = std::collections::HashMap::new();
    for _ in 0..12 {
        let n = rng.range(1, 31);
        let mut b = rng.bytes(n);
        b[n - 1] |= 1;
        let e = must!(ctx, s.msg_encode(&b), "msg_encode");
        if let Some(o) = seen.insert(enc(&e), b.clone()) {
            if o != b {
                ctx.violation("two messages are encoded alike", json!({"a": hex::encode(o), "b": hex::encode(&b)}));
            }
        }
        let mut raw = [0u8; 32];
        raw[..n].copy_from_slice(&b);
        let want = r::gt_gen() * Option::<cosmian_bls12_381::Scalar>::from(cosmian_bls12_381::Scalar::from_bytes(&raw)).expect("scalar");
        if enc(&e) != want.to_compressed() {
            ctx.violation("a message is encoded as another", json!({"message": hex::encode(&b)}));
        }
    }
}

fn run(ctx: &mut Ctx) {
    ctx.phase("names", 160, 1500, names);
    ctx.phase("formulas", 240, 2000, formulas);
    ctx.phase("missing values", 160, 1500, missing);
    ctx.phase("small keys", 320, 2000, small);
    ctx.phase("texts", 24, 400, texts);
    ctx.phase("messages", 16, 100, messages);
    ctx.phase("blocks", 8, 64, |ctx, rng| {
        block::<1>(ctx, rng);
        block::<16>(ctx, rng);
        block::<100>(ctx, rng);
        block::<4096>(ctx, rng);
    });
    interfaces::run(ctx, interfaces::What::Hostile, (16, 16, 8), interfaces::requests);
}
