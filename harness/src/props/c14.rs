use super::*;
use crate::ffi::{self, Place, FUNS};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::os::raw::c_int;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;
use std::time::Instant;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    workers: 4,
    rule: "histories of creations (some of them invalid), uses and destructions of encryption and decryption caches by 1 to 16 threads sharing their handles, including handles never created; each use is compared with the function without cache for the same key and policy; the log of each handle is checked for linearizability against the life of an immutable entry (created once, alive until the first destruction), handles against each other for uniqueness; a part of the histories also runs under ThreadSanitizer; distinct = order of the starts and ends of the operations on one handle",
    floors: &[
        ("uses", 3000), ("uses of a live cache", 1500), ("uses refused", 500), ("destructions", 500), ("operations overlapping another on the same cache", 300),
        ("uses overlapping a destruction", 20), ("caches alive at once", 2000), ("creations refused", 100), ("handles never created", 200), ("caches released", 2000), ("creations", 60000),
    ],
    assumptions: &["the monotonic clock is the same for all threads", "fewer than 2^31 caches are created in the life of a process", MODEL],
};

const ENCR: u8 = 0;
const DECR: u8 = 1;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Create,
    Use,
    Destroy,
}

#[derive(Clone, Copy, Debug)]
struct Event {
    reg: u8,
    op: Op,
    h: c_int,
    start: u64,
    end: u64,
    ok: bool,
    thread: u32,
}

/// The keys and policies put in caches, and what they must do
struct Pool {
    scenes: Vec<c13::Scene>,
    /// [key][header]: what decryption without cache gives
    clear: Vec<Vec<Option<ffi::Clear>>>,
    /// [policy][attributes]: does encryption without cache succeed?
    allowed: Vec<Vec<bool>>,
}

fn pool(rng: &mut Rng, n: usize) -> Result<Pool, String> {
    let mut scenes = vec![];
    for _ in 0..n {
        scenes.push(c13::Scene::new(rng)?);
    }
    // the caches of the scenes are not those of the histories
    for s in &mut scenes {
        ffi::enc_destroy(s.eh);
        ffi::dec_destroy(s.dh);
    }
    let clear = scenes.iter().map(|k| scenes.iter().map(|h| ffi::dec_header(&h.header.1, &k.kb).ok()).collect()).collect();
    let allowed = scenes
        .iter()
        .map(|k| scenes.iter().map(|l| ffi::enc_header(&k.pj, &k.mb, &l.aj, &[1], &[2]).is_ok()).collect())
        .collect();
    Ok(Pool { scenes, clear, allowed })
}

struct Shared {
    pool: Pool,
    /// handles to use: 1 + registry | scene << 8 | handle << 32, 0 for none
    slots: Vec<AtomicU64>,
    zero: Instant,
}

impl Shared {
    fn now(&self) -> u64 {
        self.zero.elapsed().as_nanos() as u64
    }
}

#[derive(Default)]
struct Log {
    events: Vec<Event>,
    refused_creations: u64,
    ill_uses: u64,
    never: u64,
    bad: Option<String>,
}

fn one_use(sh: &Shared, rng: &mut Rng, reg: u8, h: c_int, scene: Option<usize>, log: &mut Log, t: u32, check: bool) {
    let n = sh.pool.scenes.len();
    let other = rng.below(n);
    let mine = scene.unwrap_or(other);
    // mostly what the key is for
    let with = if rng.chance(5, 6) { mine } else { other };
    let s = &sh.pool.scenes[with];
    let (i, args) = if reg == ENCR {
        (ffi::ENC_CACHED, ffi::a_enc_cached(h, &s.aj, &s.meta.0, &s.meta.1))
    } else {
        (ffi::DEC_CACHED, ffi::a_dec_cached(h, &s.header.1))
    };
    let f = &FUNS[i];
    let start = sh.now();
    let r = ffi::call(f, &args, &vec![8192; f.outs], Place::Heap);
    let end = sh.now();
    let ok = r.rc == 0;
    let outs: Vec<Vec<u8>> = r.outs.iter().zip(&r.lens).map(|(o, l)| o[..(*l).clamp(0, 8192) as usize].to_vec()).collect();
    if let Some(mine) = scene {
        let fits = if reg == ENCR { sh.pool.allowed[mine][with] } else { sh.pool.clear[mine][with].is_some() };
        if !fits {
            log.ill_uses += 1;
            if ok {
                log.bad = Some(format!("cache {h} of {} accepts what the function without cache refuses", f.name));
            }
            return;
        }
        if ok && reg == DECR {
            let c = sh.pool.clear[mine][with].as_ref().expect("clear");
            if outs[0] != c.0 || outs[1] != c.1 || outs[2] != c.2 {
                log.bad = Some(format!("cache {h}: decryption gives something else than without cache"));
            }
        }
        if ok && reg == ENCR && with == mine && check {
            // the key was made for this policy and these attributes
            let c = ffi::dec_header(&outs[1], &sh.pool.scenes[mine].kb);
            let m = &sh.pool.scenes[mine].meta;
            if c != Ok((outs[0].clone(), m.0.clone(), m.1.clone())) {
                log.bad = Some(format!("cache {h}: its header does not decrypt to its key with the keys of its authority"));
            }
        }
    } else {
        log.never += 1;
        if !ok {
            // whatever cache this is, if any, these may not be arguments for its key
            return;
        }
        // a success needs the key of some cache: the log of the handle must say which one
    }
    if !ok && ffi::last_error().is_empty() {
        log.bad = Some(format!("cache {h}: refused without a description"));
    }
    log.events.push(Event { reg, op: Op::Use, h, start, end, ok, thread: t });
}

fn create(sh: &Shared, reg: u8, scene: usize, log: &mut Log, t: u32) -> Option<c_int> {
    let s = &sh.pool.scenes[scene];
    let start = sh.now();
    let h = if reg == ENCR { ffi::enc_create(&s.pj, &s.mb) } else { ffi::dec_create(&s.kb) };
    let end = sh.now();
    match h {
        Ok(h) => {
            log.events.push(Event { reg, op: Op::Create, h, start, end, ok: true, thread: t });
            Some(h)
        }
        Err(e) => {
            log.bad = Some(format!("a cache cannot be created: {e}"));
            None
        }
    }
}

fn destroy(sh: &Shared, reg: u8, h: c_int, log: &mut Log, t: u32) {
    let start = sh.now();
    let rc = if reg == ENCR { ffi::enc_destroy(h) } else { ffi::dec_destroy(h) };
    let end = sh.now();
    let _ = rc;
    ffi::last_error();
    log.events.push(Event { reg, op: Op::Destroy, h, start, end, ok: true, thread: t });
}

fn refused(sh: &Shared, rng: &mut Rng, reg: u8, log: &mut Log) {
    let s = rng.pick(&sh.pool.scenes);
    let b = if reg == ENCR { &s.mb } else { &s.kb };
    let b = &b[..rng.range(1, b.len() - 1)];
    let r = if reg == ENCR { ffi::enc_create(&s.pj, b) } else { ffi::dec_create(b) };
    log.refused_creations += 1;
    if let Ok(h) = r {
        log.bad = Some(format!("a cache {h} is created from a key cut"));
    }
}

fn pack(reg: u8, scene: usize, h: c_int) -> u64 {
    u64::from(reg + 1) | (scene as u64) << 8 | u64::from(h as u32) << 32
}
fn unpack(x: u64) -> Option<(u8, usize, c_int)> {
    let r = (x & 0xFF) as u8;
    (r > 0).then(|| (r - 1, (x >> 8 & 0xFF_FFFF) as usize, (x >> 32) as u32 as c_int))
}

fn worker(sh: &Shared, rng: &mut Rng, t: u32, steps: usize, mix: usize) -> Log {
    let mut log = Log::default();
    for _ in 0..steps {
        if log.bad.is_some() {
            break;
        }
        let k = rng.below(sh.slots.len());
        let held = unpack(sh.slots[k].load(Ordering::Relaxed));
        let reg = if rng.chance(1, 2) { ENCR } else { DECR };
        // creations, uses, destructions
        let weights = [[3, 6, 2], [1, 8, 1], [4, 2, 4]][mix % 3];
        let d = rng.below(weights.iter().sum::<usize>());
        if d < weights[0] || held.is_none() {
            if rng.chance(1, 8) {
                refused(sh, rng, reg, &mut log);
                continue;
            }
            let scene = rng.below(sh.pool.scenes.len());
            if let Some(h) = create(sh, reg, scene, &mut log, t) {
                sh.slots[k].store(pack(reg, scene, h), Ordering::Relaxed);
            }
        } else if let Some((reg, scene, h)) = held {
            if d < weights[0] + weights[1] {
                if rng.chance(1, 12) {
                    // another number, which may be that of a cache or not
                    let x = match rng.below(5) {
                        0 => h.wrapping_add(rng.range(1, 4) as c_int),
                        1 => -1 - rng.below(5) as c_int,
                        2 => c_int::MIN,
                        3 => c_int::MAX,
                        _ => h ^ (1 << rng.below(31)),
                    };
                    one_use(sh, rng, reg, x, None, &mut log, t, false);
                } else {
                    let check = rng.chance(1, 3);
                    one_use(sh, rng, reg, h, Some(scene), &mut log, t, check);
                }
            } else if rng.chance(1, 10) {
                // a handle of the other kind, of the same number
                destroy(sh, 1 - reg, h, &mut log, t);
            } else {
                destroy(sh, reg, h, &mut log, t);
                if rng.chance(1, 3) {
                    one_use(sh, rng, reg, h, Some(scene), &mut log, t, false);
                }
            }
        }
        if rng.chance(1, 6) {
            std::thread::yield_now();
        }
    }
    log
}

/// Is there a life of the entry explaining all the operations on one handle?
fn explain(ev: &[Event]) -> Result<(), String> {
    let creates: Vec<&Event> = ev.iter().filter(|e| e.op == Op::Create).collect();
    let uses: Vec<&Event> = ev.iter().filter(|e| e.op == Op::Use).collect();
    let kills: Vec<&Event> = ev.iter().filter(|e| e.op == Op::Destroy).collect();
    if creates.len() > 1 {
        return Err(format!("the handle {} was returned by {} creations", creates[0].h, creates.len()));
    }
    let Some(c) = creates.first() else {
        return match uses.iter().find(|u| u.ok) {
            Some(u) => Err(format!("the cache {} was used although it was never created", u.h)),
            None => Ok(()),
        };
    };
    let mut at: Vec<u64> = ev.iter().flat_map(|e| [e.start, e.end]).collect();
    at.sort_unstable();
    at.dedup();
    for b in at.iter().copied().filter(|b| *b >= c.start && *b <= c.end) {
        let born = |u: &Event| u.end >= b;
        'death: for d in at.iter().copied().filter(|d| *d >= b).chain([u64::MAX]) {
            if d == u64::MAX {
                if kills.iter().any(|k| k.start > b) {
                    continue;
                }
            } else if !kills.iter().any(|k| k.start <= d && k.end >= d) || kills.iter().any(|k| k.start > b && k.end < d) {
                continue;
            }
            for u in &uses {
                let fine = if u.ok { born(u) && u.start <= d } else { u.start <= b || u.end >= d };
                if !fine {
                    continue 'death;
                }
            }
            return Ok(());
        }
    }
    Err(format!("no life of the cache {} explains its {} uses and {} destructions", c.h, uses.len(), kills.len()))
}

fn verdict(ctx: &mut Ctx, logs: Vec<Log>, what: &str) -> bool {
    let mut by: BTreeMap<(u8, c_int), Vec<Event>> = BTreeMap::new();
    for l in logs {
        ctx.count("creations refused", l.refused_creations);
        ctx.count("uses without effect on the caches", l.ill_uses);
        ctx.count("handles never created", l.never);
        if let Some(b) = l.bad {
            ctx.violation(b, json!({"history": what}));
            return false;
        }
        for e in l.events {
            by.entry((e.reg, e.h)).or_default().push(e);
        }
    }
    for ((reg, h), mut ev) in by {
        ev.sort_by_key(|e| (e.start, e.end));
        for e in &ev {
            match (e.op, e.ok) {
                (Op::Create, _) => ctx.count("creations", 1),
                (Op::Destroy, _) => ctx.count("destructions", 1),
                (Op::Use, ok) => {
                    ctx.count("uses", 1);
                    ctx.count(if ok { "uses of a live cache" } else { "uses refused" }, 1);
                }
            }
        }
        let mut overlaps = 0;
        for (i, a) in ev.iter().enumerate() {
            for b in &ev[i + 1..] {
                if b.start <= a.end && a.thread != b.thread {
                    overlaps += 1;
                    if (a.op == Op::Destroy) != (b.op == Op::Destroy) {
                        ctx.count("uses overlapping a destruction", 1);
                    }
                }
            }
        }
        ctx.count("operations overlapping another on the same cache", overlaps);
        // the order of starts and ends
        let mut marks: Vec<(u64, u8, usize)> = ev.iter().enumerate().flat_map(|(i, e)| [(e.start, 0, i), (e.end, 1, i)]).collect();
        marks.sort_unstable();
        let sig: String = marks
            .iter()
            .map(|(_, m, i)| format!("{}{}{}", ["s", "e"][*m as usize], ["c", "u", "d"][ev[*i].op as usize], if ev[*i].ok { "+" } else { "-" }))
            .collect();
        ctx.eval((ev.len() > 1).then_some(&sig));
        if overlaps > 2 {
            ctx.sample(|| format!("{} cache {h}: {sig}", ["encryption", "decryption"][reg as usize]));
        }
        if let Err(e) = explain(&ev) {
            ctx.violation(
                format!("{} caches: {e}", ["encryption", "decryption"][reg as usize]),
                json!({"history": what, "events": ev.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()}),
            );
            return false;
        }
    }
    true
}

fn shared(ctx: &mut Ctx, rng: &mut Rng, scenes: usize, slots: usize) -> Option<Shared> {
    match pool(rng, scenes) {
        Ok(pool) => Some(Shared { pool, slots: (0..slots).map(|_| AtomicU64::new(0)).collect(), zero: Instant::now() }),
        Err(e) => {
            ctx.violation(format!("setup failed: {e}"), json!({}));
            None
        }
    }
}

/// Looks at every cache once more, destroys them all, and looks again
fn sweep(sh: &Shared, rng: &mut Rng, logs: &mut Vec<Log>) {
    let mut log = Log::default();
    let mut seen = HashSet::new();
    let all: Vec<(u8, c_int)> = logs.iter().flat_map(|l| &l.events).filter(|e| e.op == Op::Create).map(|e| (e.reg, e.h)).filter(|x| seen.insert(*x)).collect();
    let scene_of: BTreeMap<(u8, c_int), usize> =
        sh.slots.iter().filter_map(|s| unpack(s.load(Ordering::Relaxed))).map(|(r, s, h)| ((r, h), s)).collect();
    for (r, h) in &all {
        if let Some(s) = scene_of.get(&(*r, *h)) {
            one_use(sh, rng, *r, *h, Some(*s), &mut log, 1000, true);
        }
    }
    for (r, h) in &all {
        destroy(sh, *r, *h, &mut log, 1000);
        if let Some(s) = scene_of.get(&(*r, *h)) {
            one_use(sh, rng, *r, *h, Some(*s), &mut log, 1000, false);
        }
    }
    logs.push(log);
}

fn histories(ctx: &mut Ctx, rng: &mut Rng) {
    let n = if ctx.case() % 4 == 0 { 1 } else { rng.range(2, 16) };
    let (scenes, slots) = (rng.range(2, 4), *rng.pick(&[1, 2, 4, 8, 24]));
    let Some(sh) = shared(ctx, rng, scenes, slots) else { return };
    let steps = ctx.n(600, 1200) as usize / n;
    let mix = rng.below(3);
    ctx.journal(&format!("history of {n} threads"));
    let gate = Barrier::new(n);
    let mut rngs: Vec<Rng> = (0..n).map(|_| rng.fork()).collect();
    let (shr, gater) = (&sh, &gate);
    let mut logs: Vec<Log> = std::thread::scope(|sc| {
        let hs: Vec<_> = rngs
            .iter_mut()
            .enumerate()
            .map(|(t, r)| {
                sc.spawn(move || {
                    gater.wait();
                    worker(shr, r, t as u32, steps, mix)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Log { bad: Some("a thread panicked".into()), ..Default::default() })).collect()
    });
    ctx.count("threads", n as u64);
    sweep(&sh, rng, &mut logs);
    verdict(ctx, logs, &format!("{n} threads, {slots} caches, mix {mix}"));
}

/// All threads create, then all use, then destroy, at the same instant
fn bursts(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(4, 16);
    let Some(sh) = shared(ctx, rng, 2, n) else { return };
    let rounds = ctx.n(25, 120) as usize;
    let gate = Barrier::new(n);
    let mut rngs: Vec<Rng> = (0..n).map(|_| rng.fork()).collect();
    ctx.journal("bursts");
    let (shr, gater) = (&sh, &gate);
    let mut logs: Vec<Log> = std::thread::scope(|sc| {
        let hs: Vec<_> = rngs
            .iter_mut()
            .enumerate()
            .map(|(t, r)| {
                sc.spawn(move || {
                    let mut log = Log::default();
                    for round in 0..rounds {
                        let reg = (round % 2) as u8;
                        let scene = r.below(shr.pool.scenes.len());
                        gater.wait();
                        let h = create(shr, reg, scene, &mut log, t as u32);
                        if let Some(h) = h {
                            shr.slots[t].store(pack(reg, scene, h), Ordering::Relaxed);
                        }
                        gater.wait();
                        // all look at the same one, while its owner destroys it
                        let victim = round % n;
                        let Some((vr, vs, vh)) = unpack(shr.slots[victim].load(Ordering::Relaxed)) else { continue };
                        gater.wait();
                        if t == victim {
                            for _ in 0..r.below(3000) {
                                std::hint::spin_loop();
                            }
                            destroy(shr, vr, vh, &mut log, t as u32);
                        } else {
                            one_use(shr, r, vr, vh, Some(vs), &mut log, t as u32, false);
                        }
                        if let Some(h) = h {
                            // its own is still there, or not
                            one_use(shr, r, reg, h, Some(scene), &mut log, t as u32, false);
                        }
                        if r.chance(1, 2) {
                            if let Some(h) = h {
                                destroy(shr, reg, h, &mut log, t as u32);
                            }
                        }
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Log { bad: Some("a thread panicked".into()), ..Default::default() })).collect()
    });
    ctx.count("threads", n as u64);
    sweep(&sh, rng, &mut logs);
    verdict(ctx, logs, &format!("bursts of {n} threads"));
}

/// Many caches alive at once, created as fast as possible
fn many(ctx: &mut Ctx, rng: &mut Rng) {
    let Some(sh) = shared(ctx, rng, 2, 1) else { return };
    // the smallest keys
    let mut tiny = vec![];
    for _ in 0..2 {
        let mut w = World::new(1);
        w.add_axis("A", &["x".to_string()], false);
        let a = must!(ctx, Auth::new(w), "setup");
        let k = must!(ctx, a.key(&F::Attr((0, 0))), "key");
        let (key, header) = must!(ctx, hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&[(0, 0)]), None), "header");
        tiny.push((a.w.policy.to_string(), enc(&a.mpk), enc(&k), key, header));
    }
    drop(sh);
    let threads = 8;
    let per = ctx.n(500, 12000) as usize;
    ctx.journal("many caches");
    let gate = Barrier::new(threads);
    let (tr, gr) = (&tiny, &gate);
    type Made = Vec<(usize, c_int)>;
    let made: Vec<Result<(Made, Made), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    let (mut e, mut d) = (vec![], vec![]);
                    gr.wait();
                    for i in 0..per {
                        let w = (i + t) % 2;
                        e.push((w, ffi::enc_create(&tr[w].0, &tr[w].1)?));
                        d.push((w, ffi::dec_create(&tr[w].2)?));
                    }
                    Ok((e, d))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let (mut es, mut ds) = (vec![], vec![]);
    for m in made {
        let (e, d) = must!(ctx, m, "creation");
        es.extend(e);
        ds.extend(d);
    }
    ctx.count("creations", (es.len() + ds.len()) as u64);
    ctx.count("caches alive at once", (es.len() + ds.len()) as u64);
    ctx.count("threads", threads as u64);
    for (v, n) in [(&es, "encryption"), (&ds, "decryption")] {
        let u: HashSet<c_int> = v.iter().map(|x| x.1).collect();
        ctx.eval(Some(&format!("{n} {}", v.len())));
        if u.len() != v.len() {
            ctx.violation(format!("{} {n} caches have {} handles", v.len(), u.len()), json!({}));
            return;
        }
    }
    // one in two is destroyed, the others do not mind
    let parity = rng.below(2);
    for (i, x) in es.iter().enumerate() {
        if i % 2 == parity {
            ffi::enc_destroy(x.1);
        }
    }
    for (i, x) in ds.iter().enumerate() {
        if i % 2 != parity {
            ffi::dec_destroy(x.1);
        }
    }
    let mut looked: Vec<usize> = (0..es.len()).collect();
    rng.shuffle(&mut looked);
    looked.truncate(ctx.n(400, 4000) as usize);
    looked.extend([0, 1, 2, es.len() - 1, es.len() - 2]);
    let aj = serde_json::to_string(&vec![abe_policy::Attribute { axis: "A".into(), name: "x".into() }]).unwrap();
    for i in looked {
        let alive = i % 2 != parity;
        let (w, h) = es[i];
        let r = ffi::enc_cached(h, &aj, &[], &[]);
        ctx.count("uses", 1);
        ctx.eval(None);
        match (&r, alive) {
            (Ok((k, hd)), true) => {
                ctx.count("uses of a live cache", 1);
                if ffi::dec_header(hd, &tiny[w].2).map(|c| c.0) != Ok(k.clone()) {
                    ctx.violation(format!("the encryption cache {h} does not hold its key"), json!({}));
                    return;
                }
            }
            (Err(_), false) => ctx.count("uses refused", 1),
            _ => {
                ctx.violation(format!("encryption cache {h}, alive: {alive}, use: {:?}", r.map(|_| ())), json!({}));
                return;
            }
        }
        let alive = i % 2 == parity;
        let (w, h) = ds[i];
        let r = ffi::dec_cached(h, &tiny[w].4);
        ctx.count("uses", 1);
        match (&r, alive) {
            (Ok(c), true) => {
                ctx.count("uses of a live cache", 1);
                if c.0 != tiny[w].3 {
                    ctx.violation(format!("the decryption cache {h} does not hold its key"), json!({}));
                    return;
                }
            }
            (Err(_), false) => ctx.count("uses refused", 1),
            _ => {
                ctx.violation(format!("decryption cache {h}, alive: {alive}, use: {:?}", r.map(|_| ())), json!({}));
                return;
            }
        }
    }
    for x in &es {
        ffi::enc_destroy(x.1);
    }
    for x in &ds {
        ffi::dec_destroy(x.1);
    }
}

/// More than 2^16 creations, while a few caches of the first
/// and others of the middle stay alive: they keep holding their key
fn turnover(ctx: &mut Ctx, rng: &mut Rng) {
    let mut tiny = vec![];
    for _ in 0..2 {
        let mut w = World::new(1);
        w.add_axis("A", &["x".to_string()], false);
        let a = must!(ctx, Auth::new(w), "setup");
        let k = must!(ctx, a.key(&F::Attr((0, 0))), "key");
        let (key, header) = must!(ctx, hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&[(0, 0)]), None), "header");
        tiny.push((a.w.policy.to_string(), enc(&a.mpk), enc(&k), key, header));
    }
    let threads = 8;
    let per = ctx.n(8400, 20_000) as usize;
    // (an encryption cache takes five times longer than a decryption cache: as many only in depth)
    let skip = ctx.n(16, 1) as usize;
    // those which stay: one in `gap`
    let gap = per / 10;
    let done = std::sync::atomic::AtomicUsize::new(0);
    let (dr, mut seen) = (&done, 0);
    let (tr, phase) = (&tiny, rng.below(gap));
    ctx.journal("turnover");
    type Made = Vec<(usize, c_int)>;
    type Both = (Made, Made, Vec<c_int>, Vec<c_int>);
    let made: Vec<Result<Both, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    let (mut e, mut d, mut ae, mut ad) = (vec![], vec![], vec![], vec![]);
                    for i in 0..per {
                        let w = (i + t) % 2;
                        let keep = i < 3 || i % gap == phase;
                        let hd = ffi::dec_create(&tr[w].2)?;
                        dr.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        ad.push(hd);
                        if keep {
                            d.push((w, hd));
                        } else {
                            ffi::dec_destroy(hd);
                        }
                        if keep || i % skip == 0 {
                            let he = ffi::enc_create(&tr[w].0, &tr[w].1)?;
                            ae.push(he);
                            if keep {
                                e.push((w, he));
                            } else {
                                ffi::enc_destroy(he);
                            }
                        }
                    }
                    Ok((e, d, ae, ad))
                })
            })
            .collect();
        while hs.iter().any(|h| !h.is_finished()) {
            let n = done.load(std::sync::atomic::Ordering::Relaxed);
            if n / 1000 > seen {
                seen = n / 1000;
                ctx.journal("turnover");
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let (mut es, mut ds, mut all) = (vec![], vec![], [vec![], vec![]]);
    for m in made {
        let (e, d, ae, ad) = must!(ctx, m, "creation");
        es.extend(e);
        ds.extend(d);
        all[0].extend(ae);
        all[1].extend(ad);
    }
    ctx.count("creations", (all[0].len() + all[1].len()) as u64);
    for (v, n) in [(&all[0], "encryption"), (&all[1], "decryption")] {
        let u: HashSet<&c_int> = v.iter().collect();
        ctx.sample(|| format!("{} creations of {n} caches: {} handles", v.len(), u.len()));
    }
    let aj = serde_json::to_string(&vec![abe_policy::Attribute { axis: "A".into(), name: "x".into() }]).unwrap();
    for (v, n) in [(&es, "encryption"), (&ds, "decryption")] {
        let u: HashSet<c_int> = v.iter().map(|x| x.1).collect();
        ctx.eval(Some(&format!("{n} {} {}", v.len(), all[0].len())));
        if u.len() != v.len() {
            ctx.violation(format!("{} {n} caches alive at once have {} handles", v.len(), u.len()), json!({}));
            return;
        }
    }
    for (w, h) in &es {
        ctx.count("uses", 1);
        ctx.count("uses of a live cache", 1);
        let ok = ffi::enc_cached(*h, &aj, &[], &[]).and_then(|(k, hd)| Ok(ffi::dec_header(&hd, &tiny[*w].2)?.0 == k));
        if ok != Ok(true) {
            ctx.violation(format!("the encryption cache {h} does not hold its key after {} creations: {ok:?}", all[0].len()), json!({}));
            return;
        }
        ffi::enc_destroy(*h);
    }
    for (w, h) in &ds {
        ctx.count("uses", 1);
        ctx.count("uses of a live cache", 1);
        let ok = ffi::dec_cached(*h, &tiny[*w].4).map(|c| c.0 == tiny[*w].3);
        if ok != Ok(true) {
            ctx.violation(format!("the decryption cache {h} does not hold its key after {} creations: {ok:?}", all[1].len()), json!({}));
            return;
        }
        ffi::dec_destroy(*h);
    }
}

/// What destroyed caches held is given back
fn released(ctx: &mut Ctx, rng: &mut Rng) {
    let w = gen_world(rng, &MEDIUM);
    let a = must!(ctx, Auth::new(w), "setup");
    let f = gen_formula(rng, &a.w.m, 8);
    let (pj, mb, kb) = (a.w.policy.to_string(), enc(&a.mpk), enc(&must!(ctx, a.key(&f), "key")));
    let n = 60;
    let mut full = 0;
    let mut levels = vec![];
    let aj = serde_json::to_string(&a.w.m.attrs_of(&gen_sat(rng, &a.w.m, &f))).unwrap();
    let mut round = |reg: u8, how: usize| -> Result<(), String> {
        let hs = (0..n).map(|_| if reg == ENCR { ffi::enc_create(&pj, &mb) } else { ffi::dec_create(&kb) }).collect::<Result<Vec<_>, _>>()?;
        full = full.max(crate::alloc::level());
        if how == 1 {
            // used before
            for h in &hs[..5] {
                if reg == ENCR {
                    ffi::enc_cached(*h, &aj, b"u", b"")?;
                }
            }
        }
        for h in hs {
            if reg == ENCR {
                ffi::enc_destroy(h);
            } else {
                ffi::dec_destroy(h);
            }
        }
        levels.push(crate::alloc::level());
        Ok(())
    };
    for reg in [ENCR, DECR] {
        for i in 0..4 {
            must!(ctx, round(reg, i % 2), "caches");
        }
    }
    ctx.count("caches released", 8 * n);
    ctx.eval(Some(&describe(&a.w)));
    // after the tables of the registries have grown, once
    for k in [0, 4] {
        let held = full.saturating_sub(levels[k]);
        let kept = levels[k + 3].saturating_sub(levels[k]);
        ctx.sample(|| format!("{n} caches hold {held} bytes; after three more rounds {kept} are kept"));
        if kept > held / 4 + 4096 {
            ctx.violation(
                format!("{} bytes are kept after destroying the {} caches of three rounds", kept, ["encryption", "decryption"][k / 4]),
                json!({"levels": format!("{levels:?}"), "full": full}),
            );
        }
    }
}

fn run(ctx: &mut Ctx) {
    let tsan = std::env::var_os("VMON_TSAN").is_some();
    let k = if tsan { 2 } else { 1 };
    ctx.phase("histories", 32 / (k * 2), 480 / k, histories);
    ctx.phase("bursts", 12 / k, 120 / k, bursts);
    ctx.phase("disturbed", 4, 40, c19::disturbed);
    if !tsan {
        ctx.phase("many", 2, 8, many);
        ctx.phase("turnover", 1, 4, turnover);
        ctx.phase("released", 12, 60, released);
    }
}
