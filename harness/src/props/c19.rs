use super::*;
use crate::ffi;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Barrier;
use std::os::raw::c_int;
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    workers: 4,
    rule: "2 to 16 threads share an engine, keys, policies and caches of several authorities and run random operations of every kind, failing ones included, each result checked on its own (model of policies, fixed expectations recorded when alone, reference bytes); a part of them also runs under ThreadSanitizer; caches are used while other threads never stop creating and destroying others; and operations are started while another thread is in the middle of a long one and must end before it; distinct = (operation, operation running at the same time), (long operation, short operation)",
    floors: &[
        ("operations", 3000), ("kinds of operation", 18), ("pairs of kinds running at once", 100), ("threads", 60), ("operations that had to fail", 200),
        ("short operations within a long one", 40), ("uses of caches among changes", 200),
    ],
    assumptions: &["a short operation that takes a small part of a long one when alone ends within it on an 8-core machine, unless it waits for it (three attempts)", MODEL],
};

/// One authority, with what each of its fixed operations must give
pub struct Site {
    pub s: c13::Scene,
    f: F,
    key: Uk,
    ct: Ct,
    msg: Pt,
    closed: Option<(Vec<At>, Ct)>,
    all: Uk,
    sym: (Vec<u8>, Vec<u8>),
    pub bytes: [Vec<u8>; 5],
}

pub fn site(rng: &mut Rng) -> Result<Site, String> {
    let s = c13::Scene::new(rng)?;
    let a = &s.a;
    let f = s.f.clone();
    let key: Uk = dec(&s.kb).map_err(|e| e.to_string())?;
    let msg = a.message()?;
    let ct = a.encrypt(&s.l, &msg)?;
    let out = gen_unsat(rng, &a.w.m, &f);
    let closed = if out.is_empty() || a.w.m.snapshot(&f).eval(&a.w.m.currents(&out)) {
        None
    } else {
        let c = a.encrypt(&out, &msg)?;
        Some((out, c))
    };
    let all = a.eng.generate_user_key(&a.w.policy, &a.msk, &abe_policy::AccessPolicy::All).map_err(|e| e.to_string())?;
    let sym = a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&s.l), 32).map_err(|e| e.to_string())?;
    let bytes = [enc(&a.msk), enc(&a.mpk), enc(&a.mdk), enc(&key), enc(&ct)];
    Ok(Site { s, f, key, ct, msg, closed, all, sym, bytes })
}

pub const KINDS: [&str; 22] = [
    "master keys", "user key", "key for all", "encrypt", "decrypt", "decrypt another's", "refused", "delegate", "delegate All", "symmetric key",
    "decrypt symmetric key", "serialize", "parse", "parse garbage", "rotate", "hybrid header", "hybrid decrypt", "block", "C header", "C cached", "C keys", "C error",
];

/// Runs one operation and says what is wrong with its result
pub fn operation(kind: usize, eng: &Eng, x: &Site, rng: &mut Rng) -> Result<(), String> {
    let a = &x.s.a;
    let m = &a.w.m;
    let e = |e: cosmian_abe_gpsw::error::FormatErr| e.to_string();
    match KINDS[kind] {
        "master keys" => {
            let p = Profile { axes: (1, 2), attrs: (1, 2), spare: (0, 1), rotations: (0, 0), plain: true };
            let w = gen_world(rng, &p);
            let (msk, mpk, mdk) = eng.generate_master_key(&w.policy).map_err(e)?;
            let f = gen_formula(rng, &w.m, 3);
            let k = eng.generate_user_key(&w.policy, &msk, &w.m.access(&f)).map_err(e)?;
            let l = gen_sat(rng, &w.m, &f);
            let msg = eng.random_message().map_err(e)?;
            let ct = eng.encrypt(&w.policy, &mpk, &w.m.attrs_of(&l), &msg).map_err(e)?;
            if eng.decrypt(&ct, &k).map_err(e)? != Some(msg) {
                return Err("keys just made do not work".into());
            }
            let d = eng.delegate_user_key(&w.policy, &mdk, &k, &w.m.access(&f)).map_err(e)?;
            if eng.decrypt(&ct, &d).map_err(e)?.is_none() {
                return Err("a key just delegated does not work".into());
            }
        }
        "user key" => {
            let f = gen_formula(rng, m, 4);
            let k = eng.generate_user_key(&a.w.policy, &a.msk, &m.access(&f)).map_err(e)?;
            let open = m.snapshot(&f).eval(&m.currents(&x.s.l));
            match eng.decrypt(&x.ct, &k) {
                Ok(Some(y)) if open && y == x.msg => {}
                Ok(None) | Err(_) if !open => {}
                r => return Err(format!("a new key for {} gives {:?}, should it open: {open}", f.shape(), r.map(|o| o.map(|y| y == x.msg)))),
            }
        }
        "key for all" => {
            let k = eng.generate_user_key(&a.w.policy, &a.msk, &abe_policy::AccessPolicy::All).map_err(e)?;
            if eng.decrypt(&x.ct, &k).map_err(e)?.as_ref() != Some(&x.msg) {
                return Err("a key for all does not open".into());
            }
        }
        "encrypt" => {
            let msg = eng.random_message().map_err(e)?;
            let ct = eng.encrypt(&a.w.policy, &a.mpk, &m.attrs_of(&x.s.l), &msg).map_err(e)?;
            if eng.decrypt(&ct, &x.key).map_err(e)? != Some(msg) {
                return Err("a new cipher text does not give its message".into());
            }
        }
        "decrypt" => {
            if eng.decrypt(&x.ct, &x.key).map_err(e)?.as_ref() != Some(&x.msg) {
                return Err("the fixed cipher text does not give its message".into());
            }
        }
        "decrypt another's" => {
            if eng.decrypt(&x.ct, &x.all).map_err(e)?.as_ref() != Some(&x.msg) {
                return Err("the fixed cipher text does not open with the key for all".into());
            }
        }
        "refused" => {
            if let Some((_, ct)) = &x.closed {
                if let Ok(Some(_)) = eng.decrypt(ct, &x.key) {
                    return Err("an unsatisfied key gives a value".into());
                }
            }
        }
        "delegate" => {
            let k = eng.delegate_user_key(&a.w.policy, &a.mdk, &x.key, &m.access(&x.f)).map_err(e)?;
            if eng.decrypt(&x.ct, &k).map_err(e)?.as_ref() != Some(&x.msg) {
                return Err("a delegated key does not open".into());
            }
        }
        "delegate All" => {
            let k = eng.delegate_user_key(&a.w.policy, &a.mdk, &x.key, &abe_policy::AccessPolicy::All).map_err(e)?;
            if eng.decrypt(&x.ct, &k).map_err(e)?.as_ref() != Some(&x.msg) {
                return Err("a key delegated for all does not open".into());
            }
        }
        "symmetric key" => {
            let (k, c) = eng.generate_symmetric_key(&a.w.policy, &a.mpk, &m.attrs_of(&x.s.l), 32).map_err(e)?;
            if eng.decrypt_symmetric_key(&x.key, &c, 32).map_err(e)? != k {
                return Err("a new symmetric key does not come back".into());
            }
        }
        "decrypt symmetric key" => {
            if eng.decrypt_symmetric_key(&x.key, &x.sym.1, 32).map_err(e)? != x.sym.0 {
                return Err("the fixed symmetric key does not come back".into());
            }
        }
        "serialize" => {
            let now = [enc(&a.msk), enc(&a.mpk), enc(&a.mdk), enc(&x.key), enc(&x.ct)];
            if now != x.bytes {
                return Err("a key serializes to other bytes".into());
            }
        }
        "parse" => {
            let i = rng.below(5);
            let b = &x.bytes[i];
            let again = match i {
                0 => enc(&dec::<Msk>(b).map_err(e)?),
                1 => enc(&dec::<Mpk>(b).map_err(e)?),
                2 => enc(&dec::<Mdk>(b).map_err(e)?),
                3 => enc(&dec::<Uk>(b).map_err(e)?),
                _ => enc(&dec::<Ct>(b).map_err(e)?),
            };
            if again != *b {
                return Err("a round trip gives other bytes".into());
            }
        }
        "parse garbage" => {
            let i = rng.below(5);
            let b = &x.bytes[i][..rng.range(1, x.bytes[i].len() - 1)];
            let ok = match i {
                0 => dec::<Msk>(b).is_ok(),
                1 => dec::<Mpk>(b).is_ok(),
                2 => dec::<Mdk>(b).is_ok(),
                3 => dec::<Uk>(b).is_ok(),
                _ => dec::<Ct>(b).is_ok(),
            };
            if ok {
                return Err("a truncated object is accepted".into());
            }
        }
        "rotate" => {
            let mut w = a.w.clone();
            let at = *rng.pick(&w.m.all());
            w.rotate(at);
            w.check();
            if x.s.a.w.policy.to_string().len() < 10 {
                return Err("policy".into());
            }
        }
        "hybrid header" => {
            let meta = (x.s.meta.0.clone(), Some(x.s.meta.1.clone()));
            let (k, h) = hy::encrypt_header(&a.w.policy, &a.mpk, &m.attrs_of(&x.s.l), Some(&meta)).map_err(e)?;
            if hy::decrypt_header(&x.key, &h).map_err(e)? != (k, meta) {
                return Err("a new header gives something else".into());
            }
        }
        "hybrid decrypt" => {
            let meta = (x.s.meta.0.clone(), Some(x.s.meta.1.clone()));
            if hy::decrypt_header(&x.key, &x.s.header.1).map_err(e)? != (x.s.header.0.clone(), meta) {
                return Err("the fixed header gives something else".into());
            }
        }
        "block" => {
            let n = rng.range(1, 20000);
            let (d, u, k) = (rng.bytes(n), rng.bytes(16), rng.bytes(32));
            let b = hy::enc_block(&k, &u, n, &d)?;
            if hy::dec_block(&k, &u, n, &b)? != d {
                return Err("a block gives something else".into());
            }
            if hy::dec_block(&k, &u, n + 1, &b).is_ok() {
                return Err("a block decrypts with another number".into());
            }
        }
        "C header" => {
            let s = &x.s;
            let (k, h) = ffi::enc_header(&s.pj, &s.mb, &s.aj, &s.meta.0, &s.meta.1)?;
            if ffi::dec_header(&h, &s.kb)? != (k, s.meta.0.clone(), s.meta.1.clone()) {
                return Err("a header of the C interface gives something else".into());
            }
        }
        "C cached" => {
            let s = &x.s;
            let (k, h) = ffi::enc_cached(s.eh, &s.aj, &s.meta.0, &s.meta.1)?;
            if ffi::dec_cached(s.dh, &h)? != (k, s.meta.0.clone(), s.meta.1.clone()) {
                return Err("a header of the C caches gives something else".into());
            }
        }
        "C keys" => {
            let s = &x.s;
            let k = ffi::user_key(&s.sb, &s.access, &s.pj)?;
            let (sym, _, _) = ffi::dec_header(&s.header.1, &k)?;
            if sym != s.header.0 {
                return Err("a user key of the C interface gives something else".into());
            }
        }
        "C error" => {
            let s = &x.s;
            if ffi::dec_header(&s.header.1, &s.kb[..s.kb.len() - 1]).is_ok() || ffi::enc_cached(-5, &s.aj, &[], &[]).is_ok() {
                return Err("a failing C call succeeds".into());
            }
            if eng.encrypt(&a.w.policy, &a.mpk, &[abe_policy::Attribute { axis: "no".into(), name: "no".into() }], &x.msg).is_ok() {
                return Err("encryption for an unknown attribute succeeds".into());
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn fails(kind: usize) -> bool {
    ["refused", "parse garbage", "C error"].contains(&KINDS[kind])
}

fn shared(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(2, 16);
    let tsan = std::env::var_os("VMON_TSAN").is_some();
    let mut sites = vec![];
    for _ in 0..rng.range(1, 3) {
        sites.push(must!(ctx, site(rng), "setup"));
    }
    // alone, everything is right
    let eng = Eng::new();
    for k in 0..KINDS.len() {
        if let Err(e) = operation(k, &eng, &sites[0], rng) {
            ctx.violation(format!("{}, alone: {e}", KINDS[k]), json!({}));
            return;
        }
    }
    let steps = ctx.n(if tsan { 120 } else { 400 }, 1200) as usize / n;
    let gate = Barrier::new(n);
    let busy: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
    // few kinds at a time make them meet more
    let mut kinds: Vec<usize> = (0..KINDS.len()).collect();
    rng.shuffle(&mut kinds);
    if rng.chance(1, 2) {
        kinds.truncate(4);
    }
    let mut rngs: Vec<Rng> = (0..n).map(|_| rng.fork()).collect();
    ctx.journal(&format!("{n} threads running {:?}", kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>()));
    type Out = (BTreeMap<usize, u64>, BTreeSet<(usize, usize)>, Option<String>);
    let (er, sr, gr, br, kr) = (&eng, &sites, &gate, &busy, &kinds);
    let outs: Vec<Out> = std::thread::scope(|sc| {
        let hs: Vec<_> = rngs
            .iter_mut()
            .enumerate()
            .map(|(t, r)| {
                sc.spawn(move || -> Out {
                    let (mut done, mut met) = (BTreeMap::new(), BTreeSet::new());
                    gr.wait();
                    for _ in 0..steps {
                        let k = *r.pick(kr);
                        let x = &sr[r.below(sr.len())];
                        br[t].store(k + 1, Ordering::Relaxed);
                        for (u, b) in br.iter().enumerate() {
                            let o = b.load(Ordering::Relaxed);
                            if u != t && o > 0 {
                                met.insert((k.min(o - 1), k.max(o - 1)));
                            }
                        }
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| operation(k, er, x, r)));
                        br[t].store(0, Ordering::Relaxed);
                        *done.entry(k).or_default() += 1;
                        match res {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => return (done, met, Some(format!("{}: {e}", KINDS[k]))),
                            Err(_) => {
                                let (loc, msg) = crate::ctx::take_panic();
                                return (done, met, Some(format!("{}: panic at {loc}: {msg}", KINDS[k])));
                            }
                        }
                    }
                    (done, met, None)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    ctx.count("threads", n as u64);
    let mut met = BTreeSet::new();
    for (done, m, bad) in outs {
        for (k, c) in done {
            ctx.count("operations", c);
            ctx.count(&format!("{} done", KINDS[k]), c);
            if fails(k) {
                ctx.count("operations that had to fail", c);
            }
            for _ in 0..c {
                ctx.eval(None);
            }
        }
        met.extend(m);
        if let Some(b) = bad {
            ctx.violation(format!("with {n} threads: {b}"), json!({"kinds": kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>()}));
            return;
        }
    }
    ctx.count("pairs of kinds running at once", met.len() as u64);
    for (a, b) in &met {
        ctx.eval(Some(&format!("{} / {}", KINDS[*a], KINDS[*b])));
    }
    ctx.count("kinds of operation", kinds.len() as u64);
    // and alone again, nothing is broken
    for k in 0..KINDS.len() {
        if let Err(e) = operation(k, &eng, &sites[0], rng) {
            ctx.violation(format!("{}, after the threads: {e}", KINDS[k]), json!({}));
            return;
        }
    }
    for s in sites {
        s.s.close();
    }
}

/// A short operation must not wait for the end of a long one
fn independent(ctx: &mut Ctx, rng: &mut Rng) {
    let eng = Eng::new();
    let x = must!(ctx, site(rng), "setup");
    // long: many attributes
    let n = ctx.n(300, 1000) as usize;
    let mut w = World::new(n as u32);
    w.add_axis("many", &(0..n).map(|i| format!("v{i}")).collect::<Vec<_>>(), false);
    let a = must!(ctx, Auth::new(w), "setup");
    let all = a.w.m.all();
    let attrs = a.w.m.attrs_of(&all);
    let key = must!(ctx, a.key(&all.iter().map(|x| F::Attr(*x)).reduce(F::or).expect("some")), "key");
    let msg = must!(ctx, a.message(), "message");
    let ct = must!(ctx, a.encrypt(&all, &msg), "encrypt");
    let (kb, cb, pj, mb) = (enc(&key), enc(&ct), a.w.policy.to_string(), enc(&a.mpk));
    let (_, header) = must!(ctx, hy::encrypt_header(&a.w.policy, &a.mpk, &attrs, None), "header");
    let dh = must!(ctx, ffi::dec_create(&kb), "cache");
    let eh = must!(ctx, ffi::enc_create(&pj, &mb), "cache");
    let aj = serde_json::to_string(&attrs).expect("attributes");
    type Long<'a> = (&'a str, Box<dyn Fn() -> bool + Sync + 'a>);
    let longs: Vec<Long> = vec![
        ("master keys", Box::new(|| eng.generate_master_key(&a.w.policy).is_ok())),
        ("key for all", Box::new(|| eng.generate_user_key(&a.w.policy, &a.msk, &abe_policy::AccessPolicy::All).is_ok())),
        ("encrypt", Box::new(|| eng.encrypt(&a.w.policy, &a.mpk, &attrs, &msg).is_ok())),
        ("delegate", Box::new(|| eng.delegate_user_key(&a.w.policy, &a.mdk, &key, &abe_policy::AccessPolicy::All).is_ok())),
        ("parse a key", Box::new(|| dec::<Uk>(&kb).is_ok())),
        ("parse a cipher text", Box::new(|| dec::<Ct>(&cb).is_ok())),
        ("create an encryption cache", Box::new(|| ffi::enc_create(&pj, &mb).map(ffi::enc_destroy).is_ok())),
        ("create a decryption cache", Box::new(|| ffi::dec_create(&kb).map(ffi::dec_destroy).is_ok())),
        ("decrypt with a cache", Box::new(|| ffi::dec_cached(dh, &header).is_ok())),
        ("encrypt with a cache", Box::new(|| ffi::enc_cached(eh, &aj, &[], &[]).is_ok())),
        ("C master keys", Box::new(|| ffi::master_keys(&pj).is_ok())),
    ];
    let mine = longs.len();
    let pick = (ctx.case() as usize) % mine;
    let (name, long) = &longs[pick];
    let t = Instant::now();
    if !long() {
        ctx.violation(format!("{name} of {n} attributes failed"), json!({}));
        return;
    }
    let alone = t.elapsed();
    // using one cache while another is being created, used or destroyed is part of it
    let mut kinds: Vec<usize> = (0..KINDS.len()).filter(|k| KINDS[*k] != "rotate" && KINDS[*k] != "refused").collect();
    rng.shuffle(&mut kinds);
    kinds.truncate(ctx.n(7, 100) as usize);
    for k in kinds {
        let t = Instant::now();
        if let Err(e) = operation(k, &eng, &x, rng) {
            ctx.violation(format!("{}, alone: {e}", KINDS[k]), json!({}));
            return;
        }
        let short = t.elapsed();
        if short * 6 > alone {
            ctx.count("operations too long for the comparison", 1);
            continue;
        }
        let mut within = false;
        for _ in 0..3 {
            ctx.journal(&format!("{} during {name}", KINDS[k]));
            let (going, over) = (AtomicBool::new(false), AtomicBool::new(false));
            let mut r = rng.fork();
            let (gr, or) = (&going, &over);
            let bad = std::thread::scope(|sc| {
                sc.spawn(move || {
                    gr.store(true, Ordering::SeqCst);
                    long();
                    or.store(true, Ordering::SeqCst);
                });
                while !going.load(Ordering::SeqCst) {
                    std::hint::spin_loop();
                }
                // in the middle of it
                std::thread::sleep((alone / 20).min(Duration::from_millis(50)));
                let res = operation(k, &eng, &x, &mut r);
                within = !over.load(Ordering::SeqCst);
                res.err()
            });
            if let Some(b) = bad {
                ctx.violation(format!("{} during {name}: {b}", KINDS[k]), json!({}));
                return;
            }
            if within {
                break;
            }
        }
        ctx.eval(Some(&format!("{name} / {}", KINDS[k])));
        if !within {
            ctx.violation(
                format!("{} ({short:?} alone) waits for the end of: {name} ({alone:?} alone)", KINDS[k]),
                json!({}),
            );
            return;
        }
        ctx.count("short operations within a long one", 1);
    }
    drop(longs);
    ffi::dec_destroy(dh);
    ffi::enc_destroy(eh);
    x.s.close();
}

/// Caches used while other threads never stop creating and destroying others, and
/// destroying those that do not exist
pub fn disturbed(ctx: &mut Ctx, rng: &mut Rng) {
    let s = must!(ctx, c13::Scene::new(rng), "setup");
    let clear = (s.header.0.clone(), s.meta.0.clone(), s.meta.1.clone());
    let (over, uses, changes) = (AtomicBool::new(false), AtomicUsize::new(0), AtomicUsize::new(0));
    let (users, disturbers) = (rng.range(2, 4), rng.range(2, 4));
    let begin = Instant::now();
    let (sr, or, ur, hr, cr) = (&s, &over, &uses, &changes, &clear);
    ctx.journal("caches used among changes");
    let bad = std::thread::scope(|sc| {
        for d in 0..disturbers {
            sc.spawn(move || {
                let mut i = 0;
                while !or.load(Ordering::Relaxed) {
                    match (d + i) % 3 {
                        // none that exists
                        0 | 1 => {
                            for j in 0..200 {
                                if d % 2 == 0 {
                                    ffi::enc_destroy(c_int::MIN + j);
                                } else {
                                    ffi::dec_destroy(c_int::MIN + j);
                                }
                                hr.fetch_add(1, Ordering::Relaxed);
                            }
                            // the others are to get through
                            std::thread::sleep(Duration::from_micros(50));
                        }
                        _ => {
                            if let Ok(h) = ffi::enc_create(&sr.pj, &sr.mb) {
                                ffi::enc_destroy(h);
                            }
                            if let Ok(h) = ffi::dec_create(&sr.kb) {
                                ffi::dec_destroy(h);
                            }
                            hr.fetch_add(4, Ordering::Relaxed);
                        }
                    }
                    i += 1;
                }
            });
        }
        let made: Vec<_> = (0..users)
            .map(|u| {
                sc.spawn(move || {
                    let mut i = u;
                    while begin.elapsed() < Duration::from_millis(1500) && !or.load(Ordering::Relaxed) {
                        let r = if i % 2 == 0 {
                            ffi::enc_cached(sr.eh, &sr.aj, &sr.meta.0, &sr.meta.1).and_then(|(k, h)| {
                                let c = ffi::dec_cached(sr.dh, &h)?;
                                if c == (k, sr.meta.0.clone(), sr.meta.1.clone()) { Ok(()) } else { Err("another content".to_string()) }
                            })
                        } else {
                            ffi::dec_cached(sr.dh, &sr.header.1).and_then(|c| if c == *cr { Ok(()) } else { Err("another content".to_string()) })
                        };
                        if let Err(e) = r {
                            or.store(true, Ordering::Relaxed);
                            return Some(e);
                        }
                        ur.fetch_add(1, Ordering::Relaxed);
                        i += 1;
                    }
                    None
                })
            })
            .collect();
        let bad = made.into_iter().filter_map(|t| t.join().unwrap_or(Some("panic".to_string()))).next();
        over.store(true, Ordering::Relaxed);
        bad
    });
    if let Some(e) = bad {
        ctx.violation(format!("a live cache fails while other threads create and destroy others: {e}"), json!({"users": users, "disturbers": disturbers}));
    }
    ctx.count("uses of caches among changes", uses.load(Ordering::Relaxed) as u64);
    ctx.count("changes around them", changes.load(Ordering::Relaxed) as u64);
    ctx.eval(Some(&format!("disturbed {users} {disturbers} {}", ctx.case())));
    s.close();
}

fn run(ctx: &mut Ctx) {
    let tsan = std::env::var_os("VMON_TSAN").is_some();
    ctx.phase("shared", if tsan { 8 } else { 24 }, if tsan { 80 } else { 400 }, shared);
    ctx.phase("disturbed", if tsan { 4 } else { 8 }, 80, disturbed);
    if !tsan {
        ctx.phase("independent", 11, 44, independent);
    }
}
