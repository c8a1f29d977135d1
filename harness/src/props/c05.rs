use super::c03::{columns, independent, relations, rows, Row};
use super::c04::narrower;
use super::*;
use crate::peer::{b, s, Peer, R};
use crate::reference::*;
use abe_policy::AccessPolicy;
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    workers: 8,
    rule: "random parents (formulas and all-attributes), delegated for documented rewritings (Or by And, Or by a child, a lower level, All), for arbitrary other formulas over their attributes and for attributes they lack, in chains; what each delegated key opens compared with the model on satisfying, maximal unsatisfying and random lists; shares of parents and children compared in the exponent; the same over transparent groups, where shares are read in the open; distinct = (policy, parent, child, list)",
    floors: &[
        ("delegations as documented", 300),
        ("decryptions with delegated keys", 1000),
        ("requests not narrower refused", 100),
        ("attributes not held refused", 50),
        ("chains of 3 or more", 50),
        ("relations evaluated", 2000),
        ("delegations of more than 10 components", 6),
        ("transparent: decryptions with delegated keys", 30000),
        ("transparent: requests not narrower refused", 2000),
        ("transparent: shares compared", 2000),
        ("Python: decryptions with delegated keys", 300),
        ("Python: requests not narrower refused", 20),
        ("Python: attributes not held refused", 30),
    ],
    assumptions: &[MODEL, REF],
};

/// the child opens nothing more than the parent (both over sets of values)
fn implies(child: &V, parent: &V) -> Option<bool> {
    let mut l = vec![];
    child.leaves(&mut l);
    l.sort_unstable();
    l.dedup();
    if l.len() > 14 {
        return None;
    }
    for mask in 0u32..1 << l.len() {
        let s: BTreeSet<u32> = l.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| *x).collect();
        if child.eval(&s) && !parent.eval(&s) {
            return Some(false);
        }
    }
    Some(true)
}

/// checks the key on lists of attributes chosen from its formula
fn exact<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, a: &Auth<S>, key: &S::UserDecryptionKey, f: Option<&F>, v: &V, what: &str, n: usize) {
    for i in 0..n {
        let l = match f {
            Some(f) if i % 3 == 0 => gen_sat(rng, &a.w.m, f),
            Some(f) if i % 3 == 1 => gen_unsat(rng, &a.w.m, f),
            _ => {
                let mut l = a.w.m.all();
                rng.shuffle(&mut l);
                let n = rng.range(0, l.len());
                l.truncate(n);
                l
            }
        };
        let expect = v.eval(&a.w.m.currents(&l));
        let msg = must!(ctx, a.message(), "message");
        let ct = must!(ctx, a.encrypt(&l, &msg), "encrypt");
        ctx.journal("decrypt");
        let r = a.eng.decrypt(&ct, key);
        let ok = match &r {
            Ok(Some(m)) => expect && *m == msg,
            _ => !expect,
        };
        if !ok {
            let got = match r {
                Ok(Some(m)) => if m == msg { "opens" } else { "gives another value" }.to_string(),
                Ok(None) => "gives nothing".to_string(),
                Err(e) => format!("fails ({e})"),
            };
            ctx.violation(
                format!("{what}: the delegated key {got}, it should {}", if expect { "open" } else { "not open" }),
                json!({"policy": describe(&a.w), "child": f.map(F::shape), "attributes": format!("{l:?}"), "key": hex::encode(enc(key))}),
            );
            return;
        }
        ctx.count("decryptions with delegated keys", 1);
        ctx.eval(Some(&format!("{what} {} {:?} {l:?}", describe(&a.w), f.map(F::shape))));
    }
}

/// replaces some leaves of hierarchical axes by a lower level
fn lower(rng: &mut Rng, m: &Model, f: &F) -> F {
    match f {
        F::Attr((x, y)) if m.axes[*x].hier && *y > 0 && rng.chance(1, 2) => F::Attr((*x, rng.below(*y + 1))),
        F::Attr(_) => f.clone(),
        F::And(a, b) => F::and(lower(rng, m, a), lower(rng, m, b)),
        F::Or(a, b) => F::or(lower(rng, m, a), lower(rng, m, b)),
    }
}

thread_local! {
    /// the Python module, when it is what delegates
    static REMOTE: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

/// the names are plain when they are written in expressions
fn plain(p: &Profile) -> Profile {
    Profile { plain: p.plain || REMOTE.with_borrow(Option::is_some), ..*p }
}

fn delegate<S: Scheme>(a: &Auth<S>, k: &S::UserDecryptionKey, f: Option<&F>) -> Result<S::UserDecryptionKey, String> {
    if let (Some(f), true) = (f, REMOTE.with_borrow(Option::is_some)) {
        let args = [b(&enc(&a.mdk)), b(&enc(k)), s(&a.w.m.expression(f)), b(a.w.policy.to_string().as_bytes())];
        return match REMOTE.with_borrow_mut(|p| p.as_mut().expect("peer").call("generate_delegated_key", &args)) {
            Ok(R::B(k)) => dec(&k).map_err(|e| format!("the key cannot be read: {e}")),
            Ok(x) => Err(format!("not a key: {x:?}")),
            Err(e) => Err(e.to_string()),
        };
    }
    let ap = f.map_or(AccessPolicy::All, |f| a.w.m.access(f));
    a.eng.delegate_user_key(&a.w.policy, &a.mdk, k, &ap).map_err(|e| e.to_string())
}

fn fresh<S: Scheme>(ctx: &mut Ctx, msk: &Option<RMsk>, keys: &[&S::UserDecryptionKey], what: &str) {
    let Some(msk) = msk else { return };
    let ks: Vec<RUk> = keys.iter().map(|k| RUk::parse(&enc(*k)).expect("key")).collect();
    let rs = rows(msk, &ks);
    independent(ctx, &rs, what);
    // one component of one key is in no other key, but for those the policy makes unique
    for (i, k) in ks.iter().enumerate() {
        for (j, o) in ks.iter().enumerate() {
            if i < j {
                for (x, d) in k.d.iter().enumerate() {
                    if k.m[x].iter().any(|c| *c != k.m[x][0]) && o.d.contains(d) {
                        ctx.violation(format!("{what}: a component is shared by two keys"), json!({"keys": [i, j], "row": x}));
                        return;
                    }
                }
            }
        }
    }
    let mut r: Vec<&Row> = rs.iter().collect();
    r.truncate(7);
    if ctx.evals % 8 == 0 {
        relations(ctx, &msk.y, &r, 1, what);
    }
}

fn run(ctx: &mut Ctx) {
    phases::<Sch>(ctx);
    #[cfg(feature = "clear")]
    {
        phases::<crate::clear::Clr>(ctx);
        super::transparent::independence(ctx, true);
    }
    if let Some(p) = interfaces::module(ctx, "VMON_PYTHON") {
        REMOTE.set(Some(p));
        ctx.phase("interface-Python documented", 40, 1000, documented::<Sch>);
        ctx.phase("interface-Python arbitrary", 60, 1500, arbitrary::<Sch>);
        ctx.phase("interface-Python not held", 30, 500, not_held::<Sch>);
        REMOTE.set(None);
    }
}

fn phases<S: Scheme>(ctx: &mut Ctx) {
    ctx.phase(&S::phase("documented"), S::n(200, 40), S::n(4000, 40), documented::<S>);
    ctx.phase(&S::phase("from-all"), S::n(60, 40), S::n(1000, 40), |ctx, rng| {
        let w = gen_world(rng, &SMALL);
        let a = must!(ctx, Auth::<S>::make(w), "setup");
        let msk = if S::CLEAR { None } else { Some(RMsk::parse(&enc(&a.msk)).expect("master key")) };
        let root = must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &AccessPolicy::All), "key for all");
        let again = must!(ctx, delegate(&a, &root, None), "delegation for all");
        let all = a.w.m.snapshot_all();
        exact(ctx, rng, &a, &again, None, &all, "all from all", 4);
        let f = gen_formula(rng, &a.w.m, 6);
        let from = if rng.chance(1, 2) { &root } else { &again };
        let k = must!(ctx, delegate(&a, from, Some(&f)), "delegation from all attributes for {}", f.shape());
        ctx.count("delegations as documented", 1);
        let v = a.w.m.snapshot(&f);
        exact(ctx, rng, &a, &k, Some(&f), &v, "from all attributes", 6);
        let twin = must!(ctx, delegate(&a, from, Some(&f)), "second delegation");
        fresh::<S>(ctx, &msk, &[&k, &twin], "delegated from all attributes");
    });
    ctx.phase(&S::phase("wide"), S::n(8, 10), S::n(80, 10), |ctx, rng| {
        // keys of many components: for all attributes up to 75, narrower ones up to 36
        let big = ctx.case() % 4 == 0;
        let n = if big { rng.range(66, 75) } else { rng.range(12, 36) };
        let a = must!(ctx, Auth::<S>::make(flat(n)), "setup");
        let msk = if S::CLEAR { None } else { Some(RMsk::parse(&enc(&a.msk)).expect("master key")) };
        let mut leaves = a.w.m.all();
        rng.shuffle(&mut leaves);
        let (bias, skew) = (if big { 10 } else { *rng.pick(&[10, 8, 6]) }, rng.below(4));
        let f = gen_tree(rng, &leaves, bias, skew);
        let parent = must!(ctx, a.key(&f), "key");
        let g = if big || rng.chance(1, 4) { None } else { Some(narrower(rng, &f)) };
        let k = must!(ctx, delegate(&a, &parent, g.as_ref()), "documented delegation");
        ctx.count("delegations as documented", 1);
        ctx.count("delegations of more than 10 components", 1);
        let g = g.unwrap_or_else(|| f.clone());
        let v = a.w.m.snapshot(&g);
        exact(ctx, rng, &a, &k, Some(&g), &v, "documented delegation", 3);
        let twin = if big { a.key(&f) } else { delegate(&a, &parent, Some(&g)) };
        let twin = must!(ctx, twin, "second delegation");
        fresh::<S>(ctx, &msk, &[&parent, &k, &twin], "wide parent, child and its twin");
        if ctx.violated() {
            return;
        }
        let Some(msk) = msk else { return };
        // the random values themselves, and what the delegation added
        let ks: Vec<RUk> = [&parent, &k, &twin].iter().map(|k| RUk::parse(&enc(*k)).expect("key")).collect();
        let rs = rows(&msk, &ks);
        let mut cols: Vec<Row> = columns(1, &rs);
        ctx.count("columns recovered", cols.len() as u64);
        if !big {
            cols.extend(columns(0, &rs));
        }
        independent(ctx, &cols, "random values of wide delegated keys");
    });
    ctx.phase(&S::phase("arbitrary"), S::n(240, 40), S::n(5000, 40), arbitrary::<S>);
    ctx.phase(&S::phase("not-held"), S::n(120, 40), S::n(2000, 40), not_held::<S>);
}

fn documented<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng) {
    let p = if rng.chance(2, 3) { &SMALL } else { &MEDIUM };
    let w = gen_world(rng, &plain(p));
    let a = must!(ctx, Auth::<S>::make(w), "setup");
    let msk = if S::CLEAR { None } else { Some(RMsk::parse(&enc(&a.msk)).expect("master key")) };
    let mut leaves = gen_leaves(rng, &a.w.m, 10);
    let n = rng.range(1, leaves.len());
    leaves.truncate(n.max(leaves.len() / 2));
    let bias = *rng.pick(&[0, 2, 3, 5]);
    let f = gen_tree(rng, &leaves, bias, 0);
    let parent = must!(ctx, a.key(&f), "key");
    let mut cur = (f.clone(), parent.clone());
    let mut links = vec![];
    let steps = rng.range(1, 4);
    for s in 0..steps {
        let kind = rng.below(5);
        let g = match kind {
            0 => None,
            1 => {
                let n = narrower(rng, &cur.0);
                Some(lower(rng, &a.w.m, &n))
            }
            _ => Some(narrower(rng, &cur.0)),
        };
        let from = if rng.chance(1, 2) { must!(ctx, roundtrip(&cur.1), "key") } else { cur.1.clone() };
        ctx.journal("delegate");
        let k = match delegate(&a, &from, g.as_ref()) {
            Ok(k) => k,
            Err(e) => {
                ctx.violation(
                    format!("a documented delegation failed: {e}"),
                    json!({"policy": describe(&a.w), "parent": cur.0.shape(), "child": g.map(|g| g.shape()), "steps": s}),
                );
                return;
            }
        };
        let g = g.unwrap_or_else(|| cur.0.clone());
        ctx.count("delegations as documented", 1);
        ctx.sample(|| format!("policy {} parent {} child {}", describe(&a.w), cur.0.shape(), g.shape()));
        let v = a.w.m.snapshot(&g);
        exact(ctx, rng, &a, &k, Some(&g), &v, "documented delegation", 4);
        if ctx.violated() {
            return;
        }
        let twin = must!(ctx, delegate(&a, &from, Some(&g)), "second delegation");
        fresh::<S>(ctx, &msk, &[&cur.1, &k, &twin], "parent, child and its twin");
        links.push(cur.1.clone());
        cur = (g, k);
        if ctx.violated() {
            return;
        }
    }
    if links.len() >= 3 {
        ctx.count("chains of 3 or more", 1);
    }
}

fn arbitrary<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng) {
    // any formula over the attributes of the parent: refused, or exact when narrower
    let w = gen_world(rng, &plain(&SMALL));
    let a = must!(ctx, Auth::<S>::make(w), "setup");
    let f = gen_formula(rng, &a.w.m, 6);
    let mut leaves = vec![];
    f.leaves(&mut leaves);
    if leaves.len() < 2 {
        return;
    }
    let parent = must!(ctx, a.key(&f), "key");
    let pv = a.w.m.snapshot(&f);
    let from = if rng.chance(1, 3) { must!(ctx, delegate(&a, &parent, None), "delegation for all") } else { parent };
    for _ in 0..4 {
        let mut l = leaves.clone();
        rng.shuffle(&mut l);
        let n = rng.range(1, l.len());
        l.truncate(n);
        let bias = *rng.pick(&[0, 3, 5, 7]);
        let g = gen_tree(rng, &l, bias, 0);
        let v = a.w.m.snapshot(&g);
        let Some(narrow) = implies(&v, &pv) else { continue };
        ctx.journal("delegate");
        match (delegate(&a, &from, Some(&g)), narrow) {
            (Ok(_), false) => {
                ctx.violation(
                    "a policy that is not narrower was delegated",
                    json!({"policy": describe(&a.w), "parent": f.shape(), "child": g.shape()}),
                );
                return;
            }
            (Err(_), false) => ctx.count("requests not narrower refused", 1),
            (Ok(k), true) => {
                ctx.count("other narrower policies delegated", 1);
                exact(ctx, rng, &a, &k, Some(&g), &v, "arbitrary delegation", 4);
            }
            (Err(_), true) => ctx.count("other narrower policies refused", 1),
        }
        ctx.eval(Some(&format!("arbitrary {} {} {}", describe(&a.w), f.shape(), g.shape())));
        if ctx.violated() {
            return;
        }
    }
}

fn not_held<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng) {
    let mut w = gen_world(rng, &plain(&SMALL));
    if w.room() == 0 {
        w.m.max += 2;
        w.policy.max_attribute_creations += 2;
    }
    let mut a = must!(ctx, Auth::<S>::make(w), "setup");
    let f = gen_formula(rng, &a.w.m, 4);
    let mut leaves = vec![];
    f.leaves(&mut leaves);
    let parent = must!(ctx, a.key(&f), "key");
    let mut held = vec![];
    a.w.m.snapshot(&f).leaves(&mut held);
    // a value of a held attribute given since
    if rng.chance(1, 2) && a.w.room() > 0 {
        let x = *rng.pick(&leaves);
        a.w.rotate(x);
    }
    for _ in 0..4 {
        let mut l = gen_leaves(rng, &a.w.m, 5);
        if rng.chance(1, 2) {
            l.extend(leaves.iter());
            l.sort_unstable();
            l.dedup();
            rng.shuffle(&mut l);
        }
        let g = gen_tree(rng, &l, 7, 0);
        let mut need = vec![];
        a.w.m.snapshot(&g).leaves(&mut need);
        if need.iter().all(|x| held.contains(x)) || !a.w.m.well_formed(&g) {
            continue;
        }
        ctx.journal("delegate");
        if delegate(&a, &parent, Some(&g)).is_ok() {
            ctx.violation(
                "attributes the parent does not hold were delegated",
                json!({"policy": describe(&a.w), "parent": f.shape(), "child": g.shape()}),
            );
            return;
        }
        ctx.count("attributes not held refused", 1);
        ctx.eval(Some(&format!("held {} {} {}", describe(&a.w), f.shape(), g.shape())));
    }
}
