use super::remote::Call;
use super::*;
use crate::alloc::level;
use crate::ffi::{self, Place, FUNS};
use crate::peer::{n as num, Peer, R};
use serde_json::json;
use std::os::raw::c_int;

pub const PROP: Prop = Prop {
    id: "C25",
    run,
    workers: 7,
    rule: "each operation of the native, C, Python and WebAssembly interfaces, made to succeed and to fail in many ways, is repeated in batches on one thread and on threads that end, and histories of all of them, on inputs that are never the same, go by in rounds; the bytes allocated (counted by the allocator; mallinfo2 and the blocks of the interpreter for Python; the linear memory and the array buffers for WebAssembly) are read after each batch; distinct = (operation, cause of failure, environment)",
    floors: &[
        ("operations", 5000), ("operations that had to fail", 5000), ("kinds of operation watched", 60), ("causes of failure watched", 60),
        ("readings of the memory", 1000), ("rounds of histories", 100), ("threads ended", 300), ("long repetitions", 20), ("caches destroyed", 400),
        ("Python calls", 3000), ("Python functions", 10), ("WebAssembly calls", 3000), ("WebAssembly functions", 12),
    ],
    assumptions: &["what is lost at each of many repetitions shows as growth between all successive readings; memory lost once is not reported", "the linear memory of a WebAssembly module only shows losses of more than a page in a batch"],
};

const BATCHES: usize = 5;

/// Does the memory grow at each of many batches?
fn watch(ctx: &mut Ctx, name: &str, n: usize, mut one: impl FnMut() -> Result<(), String>) -> bool {
    ctx.journal(name);
    // whatever is allocated once: tables, buffers of maps, of threads
    for _ in 0..3 {
        if let Err(e) = one() {
            ctx.violation(format!("{name}: {e}"), json!({}));
            return false;
        }
    }
    let mut n = n;
    let mut all: Vec<i64> = vec![];
    for trial in 0..3 {
        let mut grown: Vec<i64> = vec![];
        let mut last = level();
        for _ in 0..BATCHES {
            for _ in 0..n {
                if let Err(e) = one() {
                    ctx.violation(format!("{name}: {e}"), json!({}));
                    return false;
                }
            }
            let now = level();
            grown.push(now as i64 - last as i64);
            last = now;
            ctx.count("operations", n as u64);
            ctx.count("readings of the memory", 1);
            if grown.last().copied() <= Some(0) {
                break;
            }
        }
        ctx.journal(name);
        ctx.eval((trial == 0).then_some(name));
        if grown.last().copied() <= Some(0) {
            if trial > 0 || grown.len() > 1 {
                ctx.count("growths that end", 1);
            }
            return true;
        }
        all.extend(grown);
        n *= 2;
    }
    ctx.violation(format!("{name}: memory is lost at each repetition"), json!({"bytes by batch": all, "first batch": n / 8, "batches of a size": BATCHES}));
    false
}

/// What is kept in a container that doubles shows at each quadrupling of the repetitions
fn long(ctx: &mut Ctx, name: &str, mut one: impl FnMut() -> Result<(), String>) -> bool {
    let first = ctx.n(48, 256);
    let (mut done, mut last, mut all) = (0, 0, vec![]);
    for quad in 0..4 {
        let upto = first << (2 * quad);
        ctx.journal(name);
        let start = done;
        while done < upto {
            if let Err(e) = one() {
                ctx.violation(format!("{name}: {e}"), json!({}));
                return false;
            }
            done += 1;
            if done % 256 == 0 {
                ctx.journal(name);
            }
        }
        let now = level() as i64;
        if quad > 0 {
            all.push(now - last);
            if now - last < (done - start) as i64 {
                break;
            }
        }
        last = now;
    }
    ctx.count("operations", done);
    ctx.count("readings of the memory", all.len() as u64 + 1);
    ctx.eval(Some(name));
    if all.len() == 3 && done == first << 6 {
        let lost = all[2] >= (3 * done / 4) as i64;
        if lost {
            ctx.violation(format!("{name}: memory grows with the repetitions"), json!({"bytes lost from each fourth": all, "repetitions": done}));
            return false;
        }
    }
    ctx.count("long repetitions", 1);
    true
}

/// Many repetitions of what costs little
fn repetitions(ctx: &mut Ctx, rng: &mut Rng) {
    let a: Auth = must!(ctx, Auth::new(flat(2)), "setup");
    let f = F::Attr((0, 0));
    let key = must!(ctx, a.key(&f), "key");
    let (pj, mb, kb, sb) = (a.w.policy.to_string(), enc(&a.mpk), enc(&key), enc(&a.msk));
    let (_, h) = must!(ctx, hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&[(0, 0)]), None), "header");
    let (ea, da) = (ffi::a_enc_create(&pj, &mb), ffi::a_dec_create(&kb));
    let dh = must!(ctx, ffi::dec_create(&kb), "cache");
    let (mut r1, mut r2, mut r3, mut r4, mut r5) = (rng.fork(), rng.fork(), rng.fork(), rng.fork(), rng.fork());
    let create = |i: usize, a: &ffi::Args| -> Result<(), String> {
        let r = ffi::call(&FUNS[i], a, &[], Place::Heap);
        destroy(i, r.handle);
        if r.rc != 0 {
            return Err(ffi::last_error());
        }
        Ok(())
    };
    let refused = |x: Result<(), String>| if x.is_ok() { Err("success".to_string()) } else { Ok(()) };
    let random = |r: &mut Rng, n: usize| {
        let n = r.range(1, n);
        r.bytes(n)
    };
    let list: Vec<(&str, Box<dyn FnMut() -> Result<(), String> + '_>)> = vec![
        ("encryption caches, one after the other", Box::new(|| create(ffi::ENC_CREATE, &ea))),
        ("decryption caches, one after the other", Box::new(|| create(ffi::DEC_CREATE, &da))),
        ("one decryption cache given random headers", Box::new(|| {
            let mut b = h.clone();
            let n = r1.range(1, 8);
            let at = b.len() - n;
            b.truncate(at);
            refused(ffi::dec_cached(dh, &b).map(drop))
        })),
        ("unknown caches", Box::new(|| {
            ffi::enc_destroy(r2.range(1_000_000, 2_000_000) as c_int);
            ffi::dec_destroy(r2.range(1_000_000, 2_000_000) as c_int);
            refused(ffi::enc_cached(r2.range(1_000_000, 2_000_000) as c_int, "[]", &[], &[]).map(drop))
        })),
        ("random keys", Box::new(|| {
            let b = random(&mut r3, 200);
            let _ = (dec::<Msk>(&b), dec::<Mpk>(&b), dec::<Mdk>(&b), dec::<Uk>(&b), dec::<Ct>(&b));
            refused(ffi::user_key(&b, "\"All\"", &pj).map(drop))
        })),
        ("blocks", Box::new(|| {
            let (k, u, d, n) = (r4.bytes(32), random(&mut r4, 30), random(&mut r4, 300), r4.below(1000));
            let b = ffi::enc_block(&k, &u, n as c_int, &d)?;
            if ffi::dec_block(&k, &u, n as c_int, &b)? != d {
                return Err("wrong".into());
            }
            refused(ffi::dec_block(&k, &u, n as c_int + 1, &b).map(drop))
        })),
        ("texts of formulas", Box::new(|| {
            let x = format!("(A::{} && B::{}) || C::{}", r5.below(9999), r5.below(9999), r5.below(9999));
            let p = abe_policy::AccessPolicy::from_boolean_expression(&x).map_err(|e| e.to_string())?;
            let q = serde_json::to_string(&p).map_err(|e| e.to_string())?;
            refused(ffi::user_key(&sb, &q, &pj).map(drop))
        })),
    ];
    for (name, one) in list {
        if !long(ctx, name, one) {
            return;
        }
    }
    ffi::dec_destroy(dh);
    ffi::last_error();
}

fn destroy(i: usize, h: c_int) {
    match i {
        ffi::ENC_CREATE => drop(ffi::enc_destroy(h)),
        ffi::DEC_CREATE => drop(ffi::dec_destroy(h)),
        _ => {}
    }
}

fn native(ctx: &mut Ctx, rng: &mut Rng) {
    let eng = Eng::new();
    let x = must!(ctx, c19::site(rng), "setup");
    for k in 0..c19::KINDS.len() {
        // always the same thing, then never the same
        let seed = rng.u64();
        let mut r = rng.fork();
        for (how, same) in [("same", true), ("other", false)] {
            let ok = watch(ctx, &format!("{} ({how} inputs)", c19::KINDS[k]), 3, || {
                let mut again = Rng::new(seed);
                let y = c19::operation(k, &eng, &x, if same { &mut again } else { &mut r });
                ffi::last_error();
                y
            });
            if !ok {
                return;
            }
        }
        ctx.count("kinds of operation watched", 1);
    }
    // serialized objects of every kind, altered anywhere
    for i in 0..5 {
        let mut r = rng.fork();
        let b = &x.bytes[i];
        let mut refused = 0;
        let ok = watch(ctx, &format!("parse an altered {}", ["master key", "public key", "delegation key", "user key", "cipher text"][i]), 12, || {
            let mut c = b.clone();
            let at = if r.chance(1, 4) { r.below(c.len().min(8)) } else { r.below(c.len()) };
            if r.chance(1, 2) {
                c[at] ^= 1 << r.below(8);
            } else {
                c.truncate(at);
            }
            refused += u64::from(match i {
                0 => dec::<Msk>(&c).is_err(),
                1 => dec::<Mpk>(&c).is_err(),
                2 => dec::<Mdk>(&c).is_err(),
                3 => dec::<Uk>(&c).is_err(),
                _ => dec::<Ct>(&c).is_err(),
            });
            Ok(())
        });
        ctx.count("operations that had to fail", refused);
        ctx.count("kinds of operation watched", 1);
        if !ok {
            return;
        }
    }
    x.s.close();
}

fn c_functions(ctx: &mut Ctx, rng: &mut Rng) {
    let s = must!(ctx, c13::Scene::new(rng), "setup");
    ffi::last_error();
    let mut destroyed = 0;
    for i in 0..FUNS.len() {
        let (a, caps) = (s.args(i), vec![16384; FUNS[i].outs]);
        let ok = watch(ctx, FUNS[i].name, 4, || {
            let r = ffi::call(&FUNS[i], &a, &caps, Place::Heap);
            if r.rc != 0 {
                return Err(ffi::last_error());
            }
            destroy(i, r.handle);
            destroyed += u64::from(FUNS[i].handle);
            Ok(())
        });
        ctx.count("kinds of operation watched", 1);
        if !ok {
            return;
        }
    }
    // several live at once
    for i in [ffi::ENC_CREATE, ffi::DEC_CREATE] {
        let a = s.args(i);
        let mut r = rng.fork();
        let ok = watch(ctx, &format!("{} several at once", FUNS[i].name), 2, || {
            let mut live = vec![];
            for _ in 0..8 {
                let r = ffi::call(&FUNS[i], &a, &[], Place::Heap);
                if r.rc != 0 {
                    return Err(ffi::last_error());
                }
                live.push(r.handle);
            }
            for h in &live {
                let y = if i == ffi::ENC_CREATE { ffi::enc_cached(*h, &s.aj, &s.meta.0, &s.meta.1).map(drop) } else { ffi::dec_cached(*h, &s.header.1).map(drop) };
                y?;
            }
            r.shuffle(&mut live);
            for h in live {
                destroy(i, h);
                if r.chance(1, 4) {
                    destroy(i, h);
                }
                destroyed += 1;
            }
            Ok(())
        });
        if !ok {
            return;
        }
    }
    ctx.count("caches destroyed", destroyed);
    // one cache, used for ever
    let many: Auth = must!(ctx, Auth::new(flat(12)), "setup");
    let mh = must!(ctx, ffi::enc_create(&many.w.policy.to_string(), &enc(&many.mpk)), "cache");
    for (name, i) in [("encryption cache", ffi::ENC_CACHED), ("decryption cache", ffi::DEC_CACHED)] {
        let mut r = rng.fork();
        let ok = watch(ctx, &format!("one {name}, always used otherwise"), 4, || {
            if i == ffi::DEC_CACHED {
                let (u, d) = (r.bytes(20), r.bytes(30));
                let (k, h) = ffi::enc_cached(s.eh, &s.aj, &u, &d)?;
                if ffi::dec_cached(s.dh, &h)? != (k, u, d) {
                    return Err("wrong".into());
                }
                return Ok(());
            }
            let mut some = many.w.m.all();
            r.shuffle(&mut some);
            some.truncate(r.range(2, 7));
            let n = r.below(40);
            ffi::enc_cached(mh, &serde_json::to_string(&many.w.m.attrs_of(&some)).unwrap(), &r.bytes(n), &[]).map(drop)
        });
        if !ok {
            return;
        }
    }
    ffi::enc_destroy(mh);
    // failures of every kind: described or not, read or not
    let list = c15::plain(&s, rng, "absent");
    for (cause, i, a, caps) in &list {
        for read in [true, false] {
            let ok = watch(ctx, &format!("{cause}, {}", if read { "then its description" } else { "never read" }), 3, || {
                let r = ffi::call(&FUNS[*i], a, caps, Place::Heap);
                if r.rc == 0 {
                    return Err("success".into());
                }
                if FUNS[*i].handle && r.handle != ffi::NO_HANDLE {
                    destroy(*i, r.handle);
                }
                if read {
                    ffi::last_error();
                }
                Ok(())
            });
            ctx.count("operations that had to fail", 6);
            ffi::last_error();
            if !ok {
                return;
            }
        }
        ctx.count("causes of failure watched", 1);
    }
    let api = ffi::api();
    let text = std::ffi::CString::new("a".repeat(rng.range(1, 3000))).unwrap();
    let odd = std::ffi::CString::new(vec![0xFFu8, 0xFE]).unwrap();
    let mut b = vec![0u8; 64];
    let last = |b: &mut Vec<u8>, mut n: c_int| unsafe { (api.get_last_error)(b.as_mut_ptr().cast(), &mut n) };
    let rest: [(&str, &mut dyn FnMut() -> Result<(), String>); 8] = [
        ("set_error", &mut || {
            unsafe { (api.set_error)(text.as_ptr()) };
            Ok(())
        }),
        ("set_error, then get_last_error in a small buffer", &mut || {
            unsafe { (api.set_error)(text.as_ptr()) };
            last(&mut b, 20);
            Ok(())
        }),
        ("set_error of a null pointer", &mut || {
            unsafe { (api.set_error)(std::ptr::null()) };
            Ok(())
        }),
        ("set_error of no text", &mut || {
            unsafe { (api.set_error)(odd.as_ptr()) };
            Ok(())
        }),
        ("get_last_error without a buffer", &mut || {
            let mut n = 8;
            unsafe { (api.set_error)(text.as_ptr()) };
            unsafe { (api.get_last_error)(std::ptr::null_mut(), &mut n) };
            Ok(())
        }),
        ("destruction of unknown caches", &mut || {
            ffi::enc_destroy(1_000_000_007);
            ffi::dec_destroy(-3);
            Ok(())
        }),
        ("sizes", &mut || {
            if ffi::header_size(&[0, 0, 0, 9, 1]) < 0 || ffi::overhead() <= 0 {
                return Err("size".into());
            }
            ffi::header_size(&[0, 0]);
            Ok(())
        }),
        ("everything null", &mut || {
            for f in &FUNS {
                let raw = ffi::Raw {
                    outs: vec![(std::ptr::null_mut(), std::ptr::null_mut()); f.outs],
                    ins: vec![(std::ptr::null(), 0); f.ins],
                    strs: vec![std::ptr::null(); f.strs],
                    int: 0,
                    handle: std::ptr::null_mut(),
                };
                if unsafe { (f.call)(&raw) } == 0 {
                    return Err(format!("{} succeeds", f.name));
                }
            }
            Ok(())
        }),
    ];
    for (name, one) in rest {
        if !watch(ctx, name, 20, one) {
            return;
        }
        ctx.count("kinds of operation watched", 1);
    }
    s.close();
    ffi::last_error();
}

/// One of each, never the same: errors are left pending, read, replaced
fn medley(eng: &Eng, x: &c19::Site, r: &mut Rng, tag: &str) -> Result<(u64, u64), String> {
    let (mut done, mut failed) = (0, 0);
    let mut order: Vec<usize> = (0..c19::KINDS.len()).collect();
    r.shuffle(&mut order);
    for k in order {
        c19::operation(k, eng, x, r)?;
        done += 1;
    }
    let mut list = c15::plain(&x.s, r, tag);
    r.shuffle(&mut list);
    for (cause, i, a, caps) in &list {
        let o = ffi::call(&FUNS[*i], a, caps, Place::Heap);
        if o.rc == 0 {
            return Err(format!("{cause}: success"));
        }
        if r.chance(1, 2) {
            ffi::last_error();
        }
        failed += 1;
    }
    for i in 0..FUNS.len() {
        let a = x.s.args(i);
        let o = ffi::call(&FUNS[i], &a, &vec![16384; FUNS[i].outs], Place::Heap);
        if o.rc != 0 {
            return Err(format!("{}: {}", FUNS[i].name, ffi::last_error()));
        }
        destroy(i, o.handle);
        done += 1;
    }
    Ok((done, failed))
}

fn histories(ctx: &mut Ctx, rng: &mut Rng) {
    let eng = Eng::new();
    let x = must!(ctx, c19::site(rng), "setup");
    let mut r = rng.fork();
    let (mut done, mut failed, mut round) = (0, 0, 0u64);
    let n = ctx.n(2, 6) as usize;
    watch(ctx, "history", n, || {
        // texts of the same length, never the same
        let (d, f) = medley(&eng, &x, &mut r, &format!("absent{round:05}"))?;
        done += d;
        failed += f;
        round += 1;
        ffi::last_error();
        Ok(())
    });
    ctx.count("rounds of histories", round);
    ctx.count("operations", done);
    ctx.count("operations that had to fail", failed);
    x.s.close();
}

/// Threads that end leave nothing, whatever they did and whatever error they left
fn threads(ctx: &mut Ctx, rng: &mut Rng) {
    let eng = Eng::new();
    let x = must!(ctx, c19::site(rng), "setup");
    let list = c15::plain(&x.s, rng, "absent");
    let m = rng.range(2, 8);
    let (xr, er, lr) = (&x, &eng, &list);
    let mut ended = 0;
    for what in ["a failure", "a success", "both", "caches"] {
        let mut r = rng.fork();
        let ok = watch(ctx, &format!("{m} threads that end after {what}"), 3, || {
            let rs: Vec<Rng> = (0..m).map(|_| r.fork()).collect();
            ended += m as u64;
            std::thread::scope(|sc| {
                let hs: Vec<_> = rs
                    .into_iter()
                    .map(|mut r| {
                        sc.spawn(move || -> Result<(), String> {
                            if what == "a success" || what == "both" {
                                let k = r.below(c19::KINDS.len());
                                c19::operation(k, er, xr, &mut r)?;
                            }
                            if what == "a failure" || what == "both" {
                                let (_, i, a, caps) = r.pick(lr);
                                ffi::call(&FUNS[*i], a, caps, Place::Heap);
                            }
                            if what == "caches" {
                                for i in [ffi::ENC_CREATE, ffi::DEC_CREATE] {
                                    let o = ffi::call(&FUNS[i], &xr.s.args(i), &[], Place::Heap);
                                    if o.rc != 0 {
                                        return Err(ffi::last_error());
                                    }
                                    destroy(i, o.handle);
                                }
                            }
                            Ok(())
                        })
                    })
                    .collect();
                hs.into_iter().try_for_each(|h| h.join().map_err(|_| "panic".to_string())?)
            })
        });
        if !ok {
            return;
        }
    }
    ctx.count("threads ended", ended);
    x.s.close();
}

/// Repetitions within another process, which reads its own memory
fn repeat(ctx: &mut Ctx, p: &mut Peer, what: &str, calls: &[Call], n: u64, env: &str) -> bool {
    let list: Vec<_> = calls.iter().map(|c| json!({"f": c.f, "a": Peer::args(&c.a)})).collect();
    let mut all = vec![];
    let mut k = n;
    for trial in 0..3 {
        ctx.journal(what);
        let r = match p.ask(&json!({"repeat": list, "n": k, "batches": BATCHES})) {
            Ok(r) => r,
            Err(e) => {
                ctx.violation(format!("{what}: {e}"), json!({}));
                return false;
            }
        };
        // one line by measure
        let R::L(rows) = r else { panic!("peer: {r:?}") };
        let rows: Vec<Vec<i128>> = rows
            .into_iter()
            .map(|x| match x {
                R::L(l) => l.into_iter().map(|v| if let R::N(v) = v { v } else { 0 }).collect(),
                _ => vec![],
            })
            .collect();
        ctx.count("readings of the memory", rows.len() as u64);
        ctx.count(&format!("{env} calls"), k * (BATCHES as u64) * calls.len() as u64);
        ctx.eval((trial == 0).then_some(what));
        let measures = rows[0].len();
        // the list of the readings grows too, by less than that
        let grows = (0..measures).any(|m| rows.windows(2).all(|w| w[1][m] - w[0][m] >= i128::from(k)));
        all.extend(rows);
        if !grows {
            if trial > 0 {
                ctx.count("growths that end", 1);
            }
            return true;
        }
        k *= 2;
    }
    ctx.violation(format!("{what}: memory is lost at each repetition"), json!({"readings": all.iter().map(|r| r.iter().map(ToString::to_string).collect::<Vec<_>>()).collect::<Vec<_>>(), "first batch": n}));
    false
}

fn python(ctx: &mut Ctx, rng: &mut Rng) {
    let mut p = c16::start("VMON_PYTHON");
    let calls = must!(ctx, c16::valid(rng), "setup");
    for c in &calls {
        if !repeat(ctx, &mut p, &format!("Python {}", c.f), std::slice::from_ref(c), 6, "Python") {
            return;
        }
        ctx.count("Python functions", 1);
    }
    let n = ctx.n(24, 120);
    for _ in 0..n {
        let mut c = rng.pick(&calls).clone();
        let how = remote::spoil(rng, &mut c, &calls, &[json!(null), json!("text"), json!({"f": "1.5"})]);
        let r = remote::python(&c);
        if remote::skipped(&r) {
            continue;
        }
        ctx.count("operations that had to fail", u64::from(r.is_err()));
        if !repeat(ctx, &mut p, &format!("Python {} {how}", c.f), &[c], 6, "Python") {
            return;
        }
    }
    // the process does the same as before
    if let Err(e) = p.call(calls[0].f, &calls[0].a) {
        ctx.violation(format!("Python {} after the repetitions: {e}", calls[0].f), json!({}));
    }
}

fn wasm(ctx: &mut Ctx, rng: &mut Rng) {
    let mut p = c16::start("VMON_WASM");
    let (calls, caches) = must!(ctx, c17::valid(&mut p, rng), "setup");
    // what a call costs decides how often it can be made
    let often = |p: &mut Peer, c: &Call| {
        let t = std::time::Instant::now();
        if let (true, Ok(R::N(h))) = (c.f.contains("_create_"), p.call(c.f, &c.a)) {
            let _ = p.call(&c.f.replace("_create_", "_destroy_"), &[num(h)]);
        } else {
            let _ = p.call(c.f, &c.a);
        }
        (150_000 / t.elapsed().as_micros().max(1)).clamp(8, 3000) as u64
    };
    for c in &calls {
        let k = often(&mut p, c);
        if !repeat(ctx, &mut p, &format!("WebAssembly {}", c.f), std::slice::from_ref(c), k, "WebAssembly") {
            return;
        }
        ctx.count("WebAssembly functions", 1);
    }
    let n = ctx.n(6, 100);
    for _ in 0..n {
        let mut c = rng.pick(&calls).clone();
        let how = remote::spoil(rng, &mut c, &calls, &[]);
        let r = remote::wasm(&c, &caches);
        if remote::skipped(&r) {
            continue;
        }
        ctx.count("operations that had to fail", u64::from(r.is_err()));
        let k = often(&mut p, &c);
        if !repeat(ctx, &mut p, &format!("WebAssembly {} {how}", c.f), &[c], k, "WebAssembly") {
            return;
        }
    }
    for h in caches.enc.keys() {
        let _ = p.call("webassembly_destroy_encryption_cache", &[num(*h)]);
    }
    for h in caches.dec.keys() {
        let _ = p.call("webassembly_destroy_decryption_cache", &[num(*h)]);
    }
}

fn run(ctx: &mut Ctx) {
    ctx.phase("native", 8, 160, native);
    ctx.phase("C", 8, 160, c_functions);
    ctx.phase("repetitions", 4, 40, repetitions);
    ctx.phase("histories", 24, 200, histories);
    ctx.phase("threads", 16, 200, threads);
    ctx.phase("Python", 4, 80, python);
    ctx.phase("WebAssembly", 4, 80, wasm);
}
