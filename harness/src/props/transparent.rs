//! Monitors over the transparent groups (see clear.rs): what the real code of
//! the scheme puts in keys and cipher texts is read as exponents, over many
//! runs of the same operations with fresh randomness. A relation with constant
//! coefficients that holds in every run is one an attacker can use, or one
//! between values meant to be independent; elimination over the field finds
//! them all, whatever the coefficients.
use super::c04::narrower;
use super::*;
use crate::clear::{self, Basis, CCt, CKey, Clr};
use abe_policy::AccessPolicy;
use cosmian_bls12_381::Scalar;
use serde_json::json;
use std::collections::{BTreeSet, HashMap, HashSet};

type K = <Clr as cosmian_abe_gpsw::core::gpsw::AbeScheme>::UserDecryptionKey;

/// How a key is made: a formula, and the delegations which follow (None: for
/// all attributes, a randomization)
#[derive(Clone, Debug)]
pub struct Recipe {
    f: Option<F>,
    then: Vec<Option<F>>,
}
impl Recipe {
    fn last(&self) -> Option<&F> {
        self.then.iter().rev().find_map(|x| x.as_ref()).or(self.f.as_ref())
    }
    fn shape(&self) -> String {
        let s = |f: &Option<F>| f.as_ref().map_or("All".to_string(), F::shape);
        std::iter::once(s(&self.f)).chain(self.then.iter().map(s)).collect::<Vec<_>>().join(" > ")
    }
    /// the keys of the chain
    fn keys(&self, a: &Auth<Clr>) -> Result<Vec<K>, String> {
        let ap = |f: &Option<F>| f.as_ref().map_or(AccessPolicy::All, |f| a.w.m.access(f));
        let mut out = vec![a
            .eng
            .generate_user_key(&a.w.policy, &a.msk, &ap(&self.f))
            .map_err(|e| format!("user key for {}: {e}", self.shape()))?];
        for g in &self.then {
            let k = a
                .eng
                .delegate_user_key(&a.w.policy, &a.mdk, out.last().unwrap(), &ap(g))
                .map_err(|e| format!("delegation {}: {e}", self.shape()))?;
            out.push(k);
        }
        Ok(out)
    }
}

/// A recipe of documented delegations from the formula
fn recipe(rng: &mut Rng, f: Option<F>, m: &Model, most: usize) -> Recipe {
    let mut then = vec![];
    let mut cur = f.clone();
    for _ in 0..rng.below(most + 1) {
        let g = match (&cur, rng.below(3)) {
            (_, 0) => None,
            (Some(f), _) => Some(narrower(rng, f)),
            (None, _) => Some(gen_formula(rng, m, 5)),
        };
        if let Some(g) = &g {
            cur = Some(g.clone());
        }
        then.push(g);
    }
    Recipe { f, then }
}

/// One run: all the keys of the recipes, and cipher texts, under fresh masters
struct Run {
    t: Vec<Scalar>,
    y: Scalar,
    mdk: Vec<Scalar>,
    mpk: (Vec<Scalar>, Scalar),
    keys: Vec<CKey>,
    cts: Vec<CCt>,
    msgs: Vec<Scalar>,
}

fn run_once(w: &World, recipes: &[Recipe], lists: &[Vec<At>]) -> Result<Run, String> {
    let a = Auth::<Clr>::make(w.clone())?;
    let bad = |x: &str| format!("{x}: not in the format");
    let (t, y) = clear::master(&enc(&a.msk)).ok_or_else(|| bad("master private key"))?;
    let mpk = clear::master(&enc(&a.mpk)).ok_or_else(|| bad("master public key"))?;
    let mdk = clear::delegation(&enc(&a.mdk)).ok_or_else(|| bad("delegation key"))?;
    let mut keys = vec![];
    for r in recipes {
        for k in r.keys(&a)? {
            keys.push(clear::key(&enc(&k)).ok_or_else(|| bad("user key"))?);
        }
    }
    let (mut cts, mut msgs) = (vec![], vec![]);
    for l in lists {
        let m = a.message()?;
        msgs.push(*m.0);
        cts.push(clear::cipher(&enc(&a.encrypt(l, &m)?)).ok_or_else(|| bad("cipher text"))?);
    }
    Ok(Run { t, y, mdk, mpk, keys, cts, msgs })
}

fn same_structure(a: &Run, b: &Run) -> bool {
    a.t.len() == b.t.len()
        && a.keys.iter().zip(&b.keys).all(|(x, y)| x.attrs == y.attrs && x.m == y.m)
        && a.cts.iter().zip(&b.cts).all(|(x, y)| x.gamma == y.gamma)
}

/// Everything the attacker can compute in the target group without knowing any
/// exponent: the products of what is on each side, and the target elements
fn view(r: &Run) -> Vec<Scalar> {
    let one = Scalar::one();
    let mut left = vec![one];
    left.extend(&r.mdk);
    r.keys.iter().for_each(|k| left.extend(&k.d));
    let mut right = vec![one];
    right.extend(&r.mpk.0);
    r.cts.iter().for_each(|c| right.extend(&c.e));
    let mut out = Vec::with_capacity(left.len() * right.len() + 3);
    for a in &left {
        out.extend(right.iter().map(|b| a * b));
    }
    out.push(r.mpk.1);
    out.extend(r.cts.iter().map(|c| c.ep));
    out
}

fn transpose(rows: Vec<Vec<Scalar>>) -> Vec<Vec<Scalar>> {
    (0..rows[0].len()).map(|j| rows.iter().map(|r| r[j]).collect()).collect()
}

/// C03: no combination of what several keys and cipher texts hold gives the
/// message of a cipher text, unless one of the keys is satisfied
pub fn collusion(ctx: &mut Ctx) {
    ctx.phase("transparent-collusion", 600, 9000, |ctx, rng| {
        let big = rng.chance(1, 6);
        let p = Profile { axes: (1, 3), attrs: (1, 3), spare: (0, 1), rotations: (0, 2), plain: false };
        let w = gen_world(rng, &p);
        let all = w.m.all();
        let f0 = gen_formula(rng, &w.m, 5);
        let l = gen_unsat(rng, &w.m, &f0);
        if l.is_empty() {
            return;
        }
        let have = w.m.currents(&l);
        // sometimes, one of the keys opens: the monitor must see it
        let opened = rng.chance(1, 4);
        let mut recipes = vec![recipe(rng, Some(f0), &w.m, 1)];
        let want = rng.range(2, 4);
        for _ in 0..12 {
            if recipes.len() >= want {
                break;
            }
            let f = match rng.below(3) {
                0 => F::and(F::Attr(*rng.pick(&l)), F::Attr(*rng.pick(&all))),
                1 => gen_formula(rng, &w.m, 4),
                _ => recipes[0].f.clone().expect("formula"),
            };
            if w.m.well_formed(&f) && !w.m.snapshot(&f).eval(&have) {
                recipes.push(recipe(rng, Some(f), &w.m, 1));
            }
        }
        if opened {
            let mut f = F::Attr(*rng.pick(&l));
            let b = F::Attr(*rng.pick(&l));
            let both = F::and(f.clone(), b);
            if w.m.well_formed(&both) && rng.chance(1, 2) {
                f = both;
            }
            recipes.push(recipe(rng, Some(f), &w.m, 1));
        }
        let mut lists = vec![l.clone()];
        if rng.chance(1, 2) {
            // another cipher text, for anything: even one a key opens
            let mut o = all.clone();
            rng.shuffle(&mut o);
            let n = rng.range(1, o.len().min(3));
            o.truncate(n);
            lists.push(o);
        }
        // delegations which are satisfied are possible only from satisfied keys
        let satisfied = recipes.iter().any(|r| w.m.snapshot(r.f.as_ref().expect("formula")).eval(&have));
        assert_eq!(opened, satisfied, "model: satisfied keys");
        let first = must!(ctx, run_once(&w, &recipes, &lists), "operations");
        let cols = view(&first).len();
        if cols > if big { 700 } else { 350 } {
            ctx.count("too large to be solved", 1);
            return;
        }
        let mut views = vec![];
        let mut target = vec![];
        for i in 0..cols + 8 {
            if i % 64 == 0 {
                ctx.journal("operations");
            }
            let r = must!(ctx, run_once(&w, &recipes, &lists), "operations");
            if !same_structure(&first, &r) {
                ctx.count("keys of changing structure", 1);
                return;
            }
            target.push(r.msgs[0]);
            views.push(view(&r));
        }
        let mut b = Basis::new();
        for c in transpose(views) {
            b.add(c);
        }
        ctx.count("runs of the operations", cols as u64 + 8);
        ctx.count("products an attacker can form", cols as u64);
        let got = b.holds(&target);
        let d = || json!({"policy": describe(&w), "keys": recipes.iter().map(Recipe::shape).collect::<Vec<_>>(), "attributes": format!("{lists:?}")});
        if got && !satisfied {
            ctx.violation("a combination of what unsatisfied keys and the cipher texts hold always gives the message", d());
        } else if !got && satisfied {
            ctx.violation("no combination gives the message, though a key is satisfied", d());
        }
        ctx.count(if satisfied { "sets with a satisfied key" } else { "sets of unsatisfied keys" }, 1);
        ctx.sample(|| d().to_string());
        ctx.eval(Some(&format!("collusion {}", d())));
    });
}

/// rows of all keys over what is random in them: the values of each key but
/// one, which the master secret gives
fn expected(keys: &[CKey]) -> Vec<Vec<Scalar>> {
    let len = 1 + keys.iter().map(|k| k.m.first().map_or(0, |r| r.len() - 1)).sum::<usize>();
    let mut at = 1;
    let mut out = vec![];
    for k in keys {
        let n = k.m.first().map_or(1, Vec::len) - 1;
        for r in &k.m {
            let mut v = vec![Scalar::zero(); len];
            v[0] = r[n];
            for j in 0..n {
                v[at + j] = r[j] - r[n];
            }
            out.push(v);
        }
        at += n;
    }
    out
}

fn rank(rows: Vec<Vec<Scalar>>) -> usize {
    let mut b = Basis::new();
    for r in rows {
        b.add(r);
    }
    b.rank()
}

/// The shares of several keys are related to one another, and to the secrets,
/// only as their span programs impose
fn related(ctx: &mut Ctx, w: &World, recipes: &[Recipe], what: &str) {
    let first = must!(ctx, run_once(w, recipes, &[]), "operations");
    let rows: usize = first.keys.iter().map(|k| k.d.len()).sum();
    let n = first.t.len();
    let cols = rows + 1 + 3 * n;
    if cols > 700 {
        ctx.count("too large to be solved", 1);
        return;
    }
    let mut views = vec![];
    for i in 0..cols + 8 {
        if i % 64 == 0 {
            ctx.journal("operations");
        }
        let r = must!(ctx, run_once(w, recipes, &[]), "operations");
        if !same_structure(&first, &r) {
            ctx.count("keys of changing structure", 1);
            return;
        }
        let mut v = vec![Scalar::one()];
        v.extend(&r.t);
        v.extend(r.t.iter().map(|t| t * r.y));
        v.extend(&r.mdk);
        for k in &r.keys {
            v.extend(k.d.iter().zip(&k.attrs).map(|(d, a)| d * r.t[*a as usize]));
        }
        views.push(v);
    }
    let free = rank(expected(&first.keys));
    let got = rank(transpose(views));
    ctx.count("runs of the operations", cols as u64 + 8);
    ctx.count("shares compared", rows as u64);
    ctx.count("independent values", free as u64);
    if got < 1 + 3 * n + free {
        ctx.violation(
            format!("{what}: {} independent values among the {rows} shares, {free} are needed", got as i64 - 1 - 3 * n as i64),
            json!({"policy": describe(w), "keys": recipes.iter().map(Recipe::shape).collect::<Vec<_>>()}),
        );
    }
    ctx.eval(Some(&format!("{what} {} {:?}", describe(w), recipes.iter().map(Recipe::shape).collect::<Vec<_>>())));
}

/// C03, C05: independence of the shares of keys
pub fn independence(ctx: &mut Ctx, delegated: bool) {
    ctx.phase("transparent-independence", if delegated { 240 } else { 400 }, 8000, |ctx, rng| {
        let p = if rng.chance(3, 4) { &SMALL } else { &MEDIUM };
        let w = gen_world(rng, p);
        let mut recipes = vec![];
        let n = rng.range(1, 4);
        for i in 0..n {
            let f = match rng.below(5) {
                0 if delegated => None,
                1..=2 if i > 0 => {
                    let r: &Recipe = &recipes[0];
                    r.f.clone()
                }
                _ => Some(gen_formula(rng, &w.m, 10)),
            };
            let most = if delegated { 3 } else { 0 };
            let r = recipe(rng, f, &w.m, most);
            // the same delegation twice
            if delegated && rng.chance(1, 3) {
                recipes.push(r.clone());
            }
            recipes.push(r);
        }
        ctx.sample(|| format!("{} {:?}", describe(&w), recipes.iter().map(Recipe::shape).collect::<Vec<_>>()));
        related(ctx, &w, &recipes, if delegated { "delegated keys" } else { "generated keys" });
    });
    ctx.phase("transparent-independence-wide", 16, 300, |ctx, rng| {
        let n = if delegated { rng.range(8, 22) } else { rng.range(20, 100) };
        let w = flat(n);
        let mut leaves = w.m.all();
        rng.shuffle(&mut leaves);
        let (bias, skew) = (*rng.pick(&[10, 10, 9, 7]), rng.below(4));
        let f = gen_tree(rng, &leaves, bias, skew);
        let most = if delegated { 2 } else { 0 };
        let mut recipes = vec![recipe(rng, Some(f.clone()), &w.m, most)];
        if n < 60 {
            recipes.push(recipe(rng, Some(f), &w.m, most));
        }
        related(ctx, &w, &recipes, "keys of many components");
    });
}

/// C05: a chain of keys in the open: the delegated key's shares are those of
/// its span program, for the master secret of the parent
pub fn solve(k: &CKey, t: &[Scalar]) -> Option<Vec<Scalar>> {
    // values behind the columns, when the rows determine them
    let n = k.m.first()?.len();
    let mut rows: Vec<Vec<Scalar>> = k
        .m
        .iter()
        .zip(&k.d)
        .zip(&k.attrs)
        .map(|((m, d), a)| {
            let mut r = m.clone();
            r.push(d * t[*a as usize]);
            r
        })
        .collect();
    let mut out = vec![Scalar::zero(); n];
    for c in 0..n {
        let i = (c..rows.len()).find(|i| rows[*i][c] != Scalar::zero())?;
        rows.swap(c, i);
        let inv = rows[c][c].invert().unwrap();
        rows[c].iter_mut().for_each(|x| *x *= inv);
        let pivot = rows[c].clone();
        for (i, r) in rows.iter_mut().enumerate() {
            if i != c && r[c] != Scalar::zero() {
                let q = r[c];
                r.iter_mut().zip(&pivot).for_each(|(x, y)| *x -= q * y);
            }
        }
    }
    for c in 0..n {
        out[c] = rows[c][n];
    }
    // the other rows hold no contradiction
    rows[n..].iter().all(|r| r.iter().all(|x| *x == Scalar::zero())).then_some(out)
}

/// C12: every random value behind keys and cipher texts
pub fn random_values(ctx: &mut Ctx, bits: fn(&mut Ctx, &str, &[Vec<u8>], usize, usize)) {
    ctx.phase("transparent-values", 16, 200, |ctx, rng| {
        let mut seen: HashMap<[u8; 32], &'static str> = HashMap::new();
        let mut kinds: HashMap<&'static str, Vec<Vec<u8>>> = HashMap::new();
        let mut note = |ctx: &mut Ctx, what: &'static str, x: &Scalar| {
            let b = x.to_bytes().min((-x).to_bytes());
            if *x == Scalar::zero() || *x == Scalar::one() {
                ctx.violation(format!("{what}: a random value is 0 or 1"), json!({}));
            } else if let Some(o) = seen.insert(b, what) {
                ctx.violation(format!("{what}: a random value is, up to the sign, that of another {o}"), json!({}));
            }
            kinds.entry(what).or_default().push(x.to_bytes().to_vec());
        };
        for _ in 0..60 {
            let w = flat(rng.range(2, 12));
            let a = must!(ctx, Auth::<Clr>::make(w), "setup");
            let (t, y) = must!(ctx, clear::master(&enc(&a.msk)).ok_or("format"), "master key");
            t.iter().for_each(|x| note(ctx, "secret of an attribute", x));
            note(ctx, "master secret", &y);
            for _ in 0..4 {
                let mut leaves = a.w.m.all();
                rng.shuffle(&mut leaves);
                let f = gen_tree(rng, &leaves, 8, 0);
                let k = must!(ctx, a.key(&f), "key");
                let d = must!(ctx, a.eng.delegate_user_key(&a.w.policy, &a.mdk, &k, &AccessPolicy::All), "delegation");
                for (k, what) in [(&k, "value of a user key"), (&d, "value of a delegated key")] {
                    let k = must!(ctx, clear::key(&enc(k)).ok_or("format"), "user key");
                    let Some(u) = solve(&k, &t) else {
                        ctx.count("values not recovered", 1);
                        continue;
                    };
                    if u.len() > 1 {
                        u.iter().for_each(|x| note(ctx, what, x));
                    }
                    if u.iter().sum::<Scalar>() != y {
                        ctx.violation("the values of a key do not add up to the master secret", json!({"formula": f.shape()}));
                    }
                }
                let m = must!(ctx, a.message(), "message");
                note(ctx, "random message", &m.0);
                for _ in 0..2 {
                    let c = must!(ctx, a.encrypt(&leaves, &m), "encrypt");
                    let c = must!(ctx, clear::cipher(&enc(&c)).ok_or("format"), "cipher text");
                    let s = c.e[0] * t[c.gamma[0] as usize].invert().unwrap();
                    note(ctx, "exponent of a cipher text", &s);
                    for (e, g) in c.e.iter().zip(&c.gamma) {
                        if *e != t[*g as usize] * s {
                            ctx.violation("the components of a cipher text do not have the same exponent", json!({}));
                        }
                    }
                    if c.ep != *m.0 + y * s {
                        ctx.violation("the message is not masked by the exponent of the components", json!({}));
                    }
                    let (_, e) = must!(ctx, a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&leaves), 32), "symmetric key");
                    let c = must!(ctx, clear::cipher(&e).ok_or("format"), "encapsulation");
                    let s = c.e[0] * t[c.gamma[0] as usize].invert().unwrap();
                    note(ctx, "exponent of an encapsulation", &s);
                    note(ctx, "encapsulated element", &(c.ep - y * s));
                }
                ctx.eval(None);
            }
            if ctx.violated() {
                return;
            }
        }
        let n = seen.len() as u64;
        ctx.count("random values in the open", n);
        for (what, v) in kinds {
            if v.len() >= 200 {
                bits(ctx, what, &v, 0, 250);
            }
        }
    });
}

/// C20: master keys of large policies, and the keys made from them
pub fn large_policies(ctx: &mut Ctx) {
    let master = |ctx: &mut Ctx, a: &Auth<Clr>, cap: usize| -> Option<(Vec<Scalar>, Scalar)> {
        let p = (clear::master(&enc(&a.msk)), clear::master(&enc(&a.mpk)), clear::delegation(&enc(&a.mdk)));
        let (Some((t, y)), Some((pt, py)), Some(dt)) = p else {
            ctx.violation("the master keys are not those of the format", json!({"capacity": cap}));
            return None;
        };
        let distinct: HashSet<[u8; 32]> = t.iter().chain([&y]).map(|x| x.to_bytes()).collect();
        let problem = if t.len() <= cap {
            "a value has no component"
        } else if pt != t {
            "a public component is not that of its secret"
        } else if dt.len() != t.len() || dt.iter().zip(&t).any(|(d, t)| d * t != Scalar::one()) {
            "a delegation component is not that of its secret"
        } else if py != y {
            "the public target element is not that of the master secret"
        } else if distinct.len() != t.len() + 1 || distinct.contains(&[0; 32]) {
            "a secret is null or repeated"
        } else {
            ""
        };
        if !problem.is_empty() {
            ctx.violation(problem, json!({"capacity": cap, "sizes": [t.len(), pt.len(), dt.len()]}));
            return None;
        }
        ctx.count("master keys", 1);
        ctx.count("components compared", 2 * t.len() as u64);
        Some((t, y))
    };
    ctx.phase("transparent-capacities", 64, 600, |ctx, rng| {
        let cap = match ctx.case() {
            0 => 65_535,
            1 => 65_536,
            2 => rng.range(65_537, 140_000),
            3 => rng.range(30_000, 65_000),
            4..=7 => rng.range(4_000, 20_000),
            i if i % 2 == 0 => *rng.pick(&[254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096]),
            _ => rng.range(0, 4000),
        };
        let mut w = World::new(cap as u32);
        let n = rng.range(1, 4).min(cap.max(1));
        if cap >= n {
            w.add_axis("axis", &(0..n).map(|i| format!("a{i}")).collect::<Vec<_>>(), rng.chance(1, 2));
        }
        let a = must!(ctx, Auth::<Clr>::make(w), "setup");
        if master(ctx, &a, cap).is_some() {
            ctx.eval(Some(&format!("capacity {cap}")));
        }
    });
    ctx.phase("transparent-keys", 1500, 30000, |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let cap = w.m.max as usize;
        let a = must!(ctx, Auth::<Clr>::make(w), "setup");
        let Some((t, y)) = master(ctx, &a, cap) else { return };
        for _ in 0..3 {
            let f = gen_formula(rng, &a.w.m, 14);
            let r = recipe(rng, Some(f), &a.w.m, 2);
            for k in must!(ctx, r.keys(&a), "keys") {
                let k = must!(ctx, clear::key(&enc(&k)).ok_or("format"), "user key");
                // the shares satisfy every relation of the rows, and give the master secret
                let n = k.m[0].len();
                let aug = |x: &[Scalar], s: Scalar| {
                    let mut v = x.to_vec();
                    v.push(s);
                    v
                };
                let rows: Vec<Vec<Scalar>> = k.m.iter().zip(&k.d).zip(&k.attrs).map(|((m, d), a)| aug(m, d * t[*a as usize])).collect();
                let mut only = Basis::new();
                let mut with = Basis::new();
                for r in &rows {
                    only.add(r[..n].to_vec());
                    with.add(r.clone());
                }
                let ok = only.rank() == with.rank() && with.holds(&aug(&vec![Scalar::one(); n], y));
                let used: BTreeSet<u32> = k.attrs.iter().copied().collect();
                if !ok || used.iter().any(|v| *v as usize > cap || *v == 0) {
                    ctx.violation(
                        "the shares of a key do not satisfy the equations of its span program",
                        json!({"policy": describe(&a.w), "key": r.shape(), "attributes": k.attrs}),
                    );
                    return;
                }
                ctx.count("keys whose shares add up", 1);
                ctx.count("relations between shares", (rows.len() - only.rank()) as u64);
            }
            ctx.eval(Some(&format!("{} {}", describe(&a.w), r.shape())));
            let _ = r.last();
        }
    });
}
