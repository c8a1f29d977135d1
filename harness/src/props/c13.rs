use super::*;
use crate::ffi::{self, Answer, Args, Buf, Place, Raw, CANARY, FUNS, NO_HANDLE};
use cosmian_abe_gpsw::interfaces::ffi::{error::*, hybrid_gpsw_aes::h_get_encrypted_header_size};
use serde_json::json;
use std::os::raw::{c_char, c_int};

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    workers: 8,
    rule: "every C function with each output capacity from the least integer to a little more than needed, alone and combined, each pointer null, each input length null, negative or cut, contents cut or altered; every buffer has exactly the announced size and lies against an inaccessible page (after it, then before it), inputs are read-only, and a second run does the same on heap buffers under AddressSanitizer; canaries checked after each call; distinct = (function, argument, class of value, placement)",
    floors: &[
        ("calls", 3000), ("capacities too small", 500), ("capacities null or negative", 300), ("exact capacities", 100), ("null pointers", 300),
        ("null or negative input lengths", 100), ("altered contents", 500), ("optional outputs skipped", 50), ("error messages", 200),
    ],
    assumptions: &["an access further than a page from the end of a buffer may land in mapped memory (the AddressSanitizer run has red zones of its own)", MODEL],
};

/// Valid arguments for each function
pub struct Scene {
    pub a: Auth,
    pub f: F,
    pub l: Vec<At>,
    pub pj: String,
    pub aj: String,
    pub access: String,
    pub sb: Vec<u8>,
    pub mb: Vec<u8>,
    pub kb: Vec<u8>,
    pub header: (Vec<u8>, Vec<u8>),
    pub meta: (Vec<u8>, Vec<u8>),
    pub data: Vec<u8>,
    pub block: Vec<u8>,
    pub eh: c_int,
    pub dh: c_int,
    /// a header the key does not open
    pub closed: Option<Vec<u8>>,
}

impl Scene {
    pub fn new(rng: &mut Rng) -> Result<Scene, String> {
        let kind = rng.below(8) as u64;
        Scene::of_kind(rng, kind)
    }
    /// Sizes that are alike, or that of the symmetric key, may be taken for each other
    fn of_kind(rng: &mut Rng, kind: u64) -> Result<Scene, String> {
        let p = Profile { axes: (1, 3), attrs: (1, 3), spare: (1, 2), rotations: (0, 2), plain: true };
        let mut w = gen_world(rng, &p);
        while w.room() == 0 {
            w = gen_world(rng, &p);
        }
        let a = Auth::new(w)?;
        let f = gen_formula(rng, &a.w.m, 4);
        let key = a.key(&f)?;
        let mut l = gen_sat(rng, &a.w.m, &f);
        l.sort_unstable();
        l.dedup();
        let (n, k) = match kind % 8 {
            0 | 3 => {
                let n = rng.range(1, 40);
                (n, n)
            }
            1 => (32, 32),
            5 => (32, rng.range(1, 60)),
            _ => (rng.range(1, 40), rng.range(1, 60)),
        };
        let meta = (rng.bytes(n), rng.bytes(k));
        let (sk, h) = hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&l), Some(&(meta.0.clone(), Some(meta.1.clone())))).map_err(|e| e.to_string())?;
        let size = if rng.chance(1, 4) { n } else { rng.range(1, 100) };
        let data = rng.bytes(size);
        let block = hy::enc_block(&sk, &meta.0, 5, &data)?;
        let mut out = gen_unsat(rng, &a.w.m, &f);
        out.sort_unstable();
        out.dedup();
        let closed = match out.is_empty() || a.w.m.snapshot(&f).eval(&a.w.m.currents(&out)) {
            true => None,
            false => Some(hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&out), None).map_err(|e| e.to_string())?.1),
        };
        let (pj, mb, kb) = (a.w.policy.to_string(), enc(&a.mpk), enc(&key));
        Ok(Scene {
            aj: serde_json::to_string(&a.w.m.attrs_of(&l)).unwrap(),
            access: serde_json::to_string(&a.w.m.access(&f)).unwrap(),
            sb: enc(&a.msk),
            eh: ffi::enc_create(&pj, &mb)?,
            dh: ffi::dec_create(&kb)?,
            header: (sk, h),
            closed,
            a, f, l, pj, mb, kb, meta, data, block,
        })
    }
    pub fn args(&self, i: usize) -> Args {
        match i {
            ffi::MASTER => ffi::a_master(&self.pj),
            ffi::USER => ffi::a_user(&self.sb, &self.access, &self.pj),
            ffi::ROTATE => {
                let one = serde_json::to_string(&self.a.w.m.attrs_of(&self.l[..1])).unwrap();
                ffi::a_rotate(&one, &self.pj)
            }
            ffi::ENC_CREATE => ffi::a_enc_create(&self.pj, &self.mb),
            ffi::ENC_CACHED => ffi::a_enc_cached(self.eh, &self.aj, &self.meta.0, &self.meta.1),
            ffi::ENC => ffi::a_enc(&self.pj, &self.mb, &self.aj, &self.meta.0, &self.meta.1),
            ffi::DEC_CREATE => ffi::a_dec_create(&self.kb),
            ffi::DEC_CACHED => ffi::a_dec_cached(self.dh, &self.header.1),
            ffi::DEC => ffi::a_dec(&self.header.1, &self.kb),
            ffi::BLOCK_ENC => ffi::a_block(&self.header.0, &self.meta.0, 5, &self.data),
            _ => ffi::a_block(&self.header.0, &self.meta.0, 5, &self.block),
        }
    }
    /// Is this what the function must give, for the valid arguments?
    pub fn right(&self, i: usize, outs: &[Vec<u8>]) -> bool {
        let k = || dec::<Uk>(&self.kb).ok();
        match i {
            ffi::MASTER => ffi::split_master(&outs[0]).map_or(false, |(s, p)| dec::<Msk>(&s).is_ok() && dec::<Mpk>(&p).is_ok()),
            ffi::USER => {
                let Ok(k) = dec::<Uk>(&outs[0]) else { return false };
                hy::decrypt_header(&k, &self.header.1).map_or(false, |h| h.0 == self.header.0)
            }
            ffi::ROTATE => {
                let mut p = self.a.w.policy.clone();
                p.rotate(&self.a.w.m.attr(self.l[0])).expect("rotate");
                let v = |b: &[u8]| serde_json::from_slice::<serde_json::Value>(b).ok();
                v(&outs[0]).is_some() && v(&outs[0]) == v(p.to_string().as_bytes())
            }
            ffi::ENC_CACHED | ffi::ENC => {
                let Some(k) = k() else { return false };
                hy::decrypt_header(&k, &outs[1]).map_or(false, |h| h.0 == outs[0] && h.1 == (self.meta.0.clone(), Some(self.meta.1.clone())))
            }
            ffi::DEC_CACHED | ffi::DEC => outs == [self.header.0.clone(), self.meta.0.clone(), self.meta.1.clone()],
            ffi::BLOCK_ENC => hy::dec_block(&self.header.0, &self.meta.0, 5, &outs[0]).map_or(false, |d| d == self.data),
            ffi::BLOCK_DEC => outs[0] == self.data,
            _ => true,
        }
    }
    pub fn close(self) {
        ffi::enc_destroy(self.eh);
        ffi::dec_destroy(self.dh);
    }
}

fn heap_only() -> bool {
    std::env::var_os("VMON_HEAP").is_some()
}
fn place(rng: &mut Rng) -> Place {
    if heap_only() {
        return Place::Heap;
    }
    *rng.pick(&[Place::End, Place::End, Place::Start])
}

fn cleanup(f: &ffi::Fun, r: &Answer) {
    if f.handle && r.rc == 0 {
        if f.name.contains("encryption") {
            ffi::enc_destroy(r.handle);
        } else {
            ffi::dec_destroy(r.handle);
        }
    }
}

fn untouched(b: &[u8]) -> bool {
    b.iter().all(|x| *x == CANARY)
}

/// What a call with these capacities must have done
fn judge(ctx: &mut Ctx, s: &Scene, i: usize, need: &[c_int], caps: &[c_int], r: &Answer) -> bool {
    let f = &FUNS[i];
    let optional = |k: usize| f.optional_outs.contains(&k);
    let what = |w: &str| format!("{}: {w} (capacities {caps:?}, sizes {need:?}, lengths left {:?}, result {})", f.name, r.lens, r.rc);
    let bad = |ctx: &mut Ctx, w: &str| {
        ctx.violation(what(w), json!({"signature": format!("{} {w}", f.name)}));
        false
    };
    let refused = caps.iter().enumerate().any(|(k, c)| *c <= 0 && !optional(k));
    let small: Vec<usize> = (0..f.outs).filter(|k| caps[*k] > 0 && caps[*k] < need[*k]).collect();
    if refused || !small.is_empty() {
        if r.rc == 0 {
            return bad(ctx, "success although a buffer is too small");
        }
        for k in 0..f.outs {
            let hit = caps[k] < need[k];
            if (hit || refused) && !untouched(&r.outs[k]) {
                return bad(ctx, &format!("output {k} was written although it is too small"));
            }
        }
        if !refused && !small.iter().any(|k| r.lens[*k] == need[*k]) {
            return bad(ctx, "no required size is reported");
        }
        for k in 0..f.outs {
            if !refused && r.lens[k] != caps[k] && r.lens[k] != need[k] {
                return bad(ctx, &format!("length {k} was set to something else than the size"));
            }
        }
        return true;
    }
    if r.rc != 0 {
        return bad(ctx, "error although every buffer is large enough");
    }
    for k in 0..f.outs {
        if caps[k] <= 0 {
            if !untouched(&r.outs[k]) {
                return bad(ctx, &format!("output {k} was written"));
            }
            continue;
        }
        if r.lens[k] != need[k] {
            return bad(ctx, &format!("length {k} is not the number of bytes"));
        }
        if !untouched(&r.outs[k][need[k] as usize..]) {
            return bad(ctx, &format!("bytes after the end of output {k} were written"));
        }
    }
    if caps.iter().all(|c| *c > 0) {
        let outs: Vec<Vec<u8>> = (0..f.outs).map(|k| r.outs[k][..need[k] as usize].to_vec()).collect();
        if !s.right(i, &outs) {
            return bad(ctx, "the result is not the right one");
        }
    }
    true
}

fn sizes(ctx: &mut Ctx, rng: &mut Rng) {
    let s = must!(ctx, Scene::of_kind(rng, ctx.case()), "setup");
    for (i, f) in FUNS.iter().enumerate() {
        let a = s.args(i);
        // the sizes, learnt from a generous call
        let first = must!(ctx, ffi::get(i, &a), "{}", f.name);
        let need: Vec<c_int> = first.iter().take(f.outs).map(|o| o.len() as c_int).collect();
        if !s.right(i, &first[..f.outs]) {
            ctx.violation(format!("{}: the result is not the right one", f.name), json!({}));
            return;
        }
        if f.handle {
            cleanup(f, &Answer { rc: 0, lens: vec![], outs: vec![], handle: c_int::from_be_bytes(first[0][..].try_into().unwrap()) });
        }
        let mut plans: Vec<Vec<c_int>> = vec![need.clone()];
        for k in 0..f.outs {
            let n = need[k];
            let mut vals = vec![c_int::MIN, -1, 0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, n + 2, n + 7, n + 4096];
            vals.push(-n);
            for v in vals {
                let mut c: Vec<c_int> = need.iter().map(|n| n + 16).collect();
                c[k] = v;
                plans.push(c.clone());
                if f.outs > 1 {
                    let o = rng.below(f.outs);
                    if o != k {
                        c[o] = *rng.pick(&[0, -1, 1, need[o] - 1, need[o]]);
                        plans.push(c);
                    }
                }
            }
        }
        for caps in plans {
            let slow = i == ffi::MASTER || i == ffi::USER || i == ffi::ENC;
            if slow && !ctx.thorough() && rng.chance(1, 3) {
                continue;
            }
            let pl = place(rng);
            ctx.journal(&format!("{} capacities {caps:?} {pl:?}", f.name));
            let r = ffi::call(f, &a, &caps, pl);
            cleanup(f, &r);
            ctx.count("calls", 1);
            if caps.iter().enumerate().any(|(k, c)| *c <= 0 && !f.optional_outs.contains(&k)) {
                ctx.count("capacities null or negative", 1);
            } else if caps.iter().any(|c| *c <= 0) {
                ctx.count("optional outputs skipped", 1);
            }
            if caps.iter().zip(&need).any(|(c, n)| *c > 0 && c < n) {
                ctx.count("capacities too small", 1);
            }
            if caps.iter().zip(&need).any(|(c, n)| c == n) {
                ctx.count("exact capacities", 1);
            }
            if rng.chance(1, 50) {
                ctx.sample(|| format!("{} needing {need:?} given {caps:?} ({pl:?}): result {}, lengths {:?}", f.name, r.rc, r.lens));
            }
            ctx.eval(Some(&format!("{} {:?} {pl:?}", f.name, caps.iter().zip(&need).map(|(c, n)| i64::from(*c) - i64::from(n & !7)).collect::<Vec<_>>())));
            if !judge(ctx, &s, i, &need, &caps, &r) {
                return;
            }
            if r.rc != 0 {
                if ffi::last_error().is_empty() {
                    ctx.violation(format!("{}: an error without description", f.name), json!({"capacities": format!("{caps:?}")}));
                    return;
                }
                // with the sizes reported, the call succeeds
                if caps.iter().enumerate().all(|(k, c)| *c > 0 || f.optional_outs.contains(&k)) {
                    let mut c = caps.clone();
                    let mut last = r;
                    let mut rounds = 0;
                    while last.rc != 0 && rounds <= f.outs {
                        let next: Vec<c_int> = c.iter().zip(&last.lens).map(|(c, l)| *c.max(l)).collect();
                        if next == c {
                            break;
                        }
                        c = next;
                        last = ffi::call(f, &a, &c, pl);
                        ffi::last_error();
                        rounds += 1;
                    }
                    if !judge(ctx, &s, i, &need, &c, &last) {
                        return;
                    }
                    if last.rc != 0 {
                        ctx.violation(format!("{}: fails with the sizes it reported ({c:?} after {caps:?})", f.name), json!({}));
                        return;
                    }
                }
            }
        }
    }
    s.close();
}

/// The arguments of a call, in memory, before some of them are altered
struct Live {
    outs: Vec<Buf>,
    lens: Vec<c_int>,
    _ins: Vec<Option<Buf>>,
    _strs: Vec<Buf>,
    handle: Box<c_int>,
    raw: Raw,
}

fn live(f: &ffi::Fun, a: &Args, caps: &[c_int], place: Place) -> Box<Live> {
    let outs: Vec<Buf> = caps.iter().map(|c| Buf::filled((*c).max(0) as usize, place, CANARY)).collect();
    let ins: Vec<Option<Buf>> = a.ins.iter().map(|b| b.as_ref().map(|b| Buf::with(b, place))).collect();
    let strs: Vec<Buf> = a.strs.iter().map(|s| Buf::cstr(s, place)).collect();
    let _ = f;
    let mut l = Box::new(Live {
        raw: Raw {
            outs: vec![],
            ins: ins.iter().map(|b| b.as_ref().map_or((std::ptr::null(), 0), |b| (b.ptr().cast_const(), b.len() as c_int))).collect(),
            strs: strs.iter().map(|b| b.ptr().cast_const()).collect(),
            int: a.int,
            handle: std::ptr::null_mut(),
        },
        outs,
        lens: caps.to_vec(),
        _ins: ins,
        _strs: strs,
        handle: Box::new(NO_HANDLE),
    });
    let lp = l.lens.as_mut_ptr();
    l.raw.outs = l.outs.iter().enumerate().map(|(i, b)| (b.ptr(), unsafe { lp.add(i) })).collect();
    let h: *mut c_int = &mut *l.handle;
    l.raw.handle = h;
    l
}

fn nulls(ctx: &mut Ctx, rng: &mut Rng) {
    let s = must!(ctx, Scene::new(rng), "setup");
    for (i, f) in FUNS.iter().enumerate() {
        let a = s.args(i);
        let first = must!(ctx, ffi::get(i, &a), "{}", f.name);
        let need: Vec<c_int> = first.iter().take(f.outs).map(|o| o.len() as c_int).collect();
        if f.handle {
            cleanup(f, &Answer { rc: 0, lens: vec![], outs: vec![], handle: c_int::from_be_bytes(first[0][..].try_into().unwrap()) });
        }
        // (kind, index): 0 output, 1 its length, 2 input, 3 string, 4 handle
        let mut slots = vec![];
        for k in 0..f.outs {
            slots.push((0, k));
            slots.push((1, k));
        }
        slots.extend((0..f.ins).map(|k| (2, k)));
        slots.extend((0..f.strs).map(|k| (3, k)));
        if f.handle {
            slots.push((4, 0));
        }
        let mut plans: Vec<Vec<(i32, usize)>> = slots.iter().map(|x| vec![*x]).collect();
        for _ in 0..slots.len() {
            plans.push(slots.iter().filter(|_| rng.chance(1, 3)).copied().collect());
        }
        plans.push(slots.clone());
        for plan in plans {
            let pl = place(rng);
            let mut x = live(f, &a, &need, pl);
            let mut required = false;
            for (kind, k) in &plan {
                match kind {
                    0 => x.raw.outs[*k].0 = std::ptr::null_mut(),
                    1 => x.raw.outs[*k].1 = std::ptr::null_mut(),
                    2 => x.raw.ins[*k].0 = std::ptr::null(),
                    3 => x.raw.strs[*k] = std::ptr::null(),
                    _ => x.raw.handle = std::ptr::null_mut(),
                }
                required |= match kind {
                    0 | 1 => !f.optional_outs.contains(k),
                    2 => !f.optional_ins.contains(k),
                    _ => true,
                };
            }
            ctx.journal(&format!("{} null {plan:?} {pl:?}", f.name));
            let rc = unsafe { (f.call)(&x.raw) };
            ctx.count("null pointers", plan.len() as u64);
            ctx.count("calls", 1);
            ctx.eval(Some(&format!("{} null {plan:?} {pl:?}", f.name)));
            let outs_ok = |x: &Live| x.outs.iter().all(|b| untouched(b.bytes()));
            let mut bad = |w: &str| ctx.violation(format!("{}: {w} (null: {plan:?}, result {rc})", f.name), json!({}));
            if required {
                if rc == 0 {
                    bad("success although a required pointer is null");
                    return;
                }
                if !outs_ok(&x) || *x.handle != NO_HANDLE {
                    bad("something was written although a required pointer is null");
                    return;
                }
                if ffi::last_error().is_empty() {
                    bad("an error without description");
                    return;
                }
                continue;
            }
            // only optional things are missing
            let ident_missing = plan.iter().any(|(k, _)| *k == 2);
            if i == ffi::BLOCK_DEC && ident_missing {
                if rc == 0 {
                    bad("a block decrypts without its identifier");
                    return;
                }
                ffi::last_error();
                continue;
            }
            if rc != 0 {
                bad("error although what is null is optional");
                return;
            }
            for k in 0..f.outs {
                let skipped = plan.contains(&(0, k)) || plan.contains(&(1, k));
                let b = x.outs[k].bytes();
                if skipped && !untouched(b) {
                    bad("an output given without length was written");
                    return;
                }
                if !skipped {
                    let whole = !ident_missing;
                    if (whole && x.lens[k] != need[k]) || x.lens[k] > need[k] {
                        bad("a length is wrong");
                        return;
                    }
                    if (i == ffi::DEC || i == ffi::DEC_CACHED) && b != [&s.header.0, &s.meta.0, &s.meta.1][k].as_slice() {
                        bad("an output is wrong");
                        return;
                    }
                }
            }
            cleanup(f, &Answer { rc, lens: vec![], outs: vec![], handle: *x.handle });
        }
    }
    s.close();
}

fn lengths(ctx: &mut Ctx, rng: &mut Rng) {
    let s = must!(ctx, Scene::new(rng), "setup");
    for (i, f) in FUNS.iter().enumerate() {
        let a = s.args(i);
        for k in 0..f.ins {
            let full = a.ins[k].as_ref().map_or(0, Vec::len) as c_int;
            let optional = f.optional_ins.contains(&k);
            for n in [0, -1, -2, -full, c_int::MIN, c_int::MIN + 1, c_int::MIN + full] {
                let pl = place(rng);
                let caps = vec![8192; f.outs];
                // an empty buffer: the least read is outside
                let mut b = a.clone();
                b.ins[k] = Some(vec![]);
                let mut x = live(f, &b, &caps, pl);
                x.raw.ins[k].1 = n;
                ctx.journal(&format!("{} input {k} of length {n} {pl:?}", f.name));
                let rc = unsafe { (f.call)(&x.raw) };
                ctx.count("null or negative input lengths", 1);
                ctx.count("calls", 1);
                ctx.eval(Some(&format!("{} {k} {} {pl:?}", f.name, n.signum())));
                if rc == 0 && !optional {
                    ctx.violation(format!("{}: success although input {k} has length {n}", f.name), json!({}));
                    return;
                }
                if rc != 0 && (!x.outs.iter().all(|b| untouched(b.bytes())) || *x.handle != NO_HANDLE) {
                    ctx.violation(format!("{}: something was written although it failed (input {k} of length {n})", f.name), json!({}));
                    return;
                }
                if rc != 0 && ffi::last_error().is_empty() {
                    ctx.violation(format!("{}: an error without description", f.name), json!({}));
                    return;
                }
                if rc != 0 && optional && n == 0 && i != ffi::BLOCK_DEC {
                    ctx.violation(format!("{}: error although only the optional input {k} is empty", f.name), json!({}));
                    return;
                }
                cleanup(f, &Answer { rc, lens: vec![], outs: vec![], handle: *x.handle });
            }
        }
    }
    s.close();
}

fn contents(ctx: &mut Ctx, rng: &mut Rng) {
    let s = must!(ctx, Scene::new(rng), "setup");
    for (i, f) in FUNS.iter().enumerate() {
        let base = s.args(i);
        let slots = f.ins + f.strs;
        for _ in 0..slots * 3 {
            let mut a = base.clone();
            let k = rng.below(slots);
            let alter = |rng: &mut Rng, b: &mut Vec<u8>, text: bool| {
                if b.is_empty() {
                    return "empty";
                }
                match rng.below(6) {
                    0 => {
                        let n = rng.below(b.len());
                        b.truncate(n);
                        "cut"
                    }
                    1 => {
                        let p = rng.below(b.len());
                        b[p] ^= 1 << rng.below(8);
                        "bit"
                    }
                    2 => {
                        // a count or a length
                        let p = if b.len() > 4 && rng.chance(1, 2) { 0 } else { rng.below(b.len()) };
                        let v = *rng.pick(&[0u32, 1, 2, 0xFF, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]);
                        for (q, x) in v.to_be_bytes().iter().enumerate() {
                            if p + q < b.len() {
                                b[p + q] = *x;
                            }
                        }
                        "count"
                    }
                    3 => {
                        let n = rng.range(1, 40);
                        b.extend(rng.bytes(n));
                        "longer"
                    }
                    4 => {
                        let p = rng.below(b.len());
                        b[p] = if text { 0xFF } else { 0 };
                        "byte"
                    }
                    _ => {
                        let n = rng.range(1, 60);
                        *b = rng.bytes(n);
                        "random"
                    }
                }
            };
            let how = if k < f.ins {
                let mut b = a.ins[k].clone().unwrap_or_default();
                let h = alter(rng, &mut b, false);
                a.ins[k] = Some(b);
                h
            } else {
                let h = alter(rng, &mut a.strs[k - f.ins], true);
                for c in &mut a.strs[k - f.ins] {
                    if *c == 0 {
                        *c = b'0';
                    }
                }
                h
            };
            let pl = place(rng);
            let caps: Vec<c_int> = (0..f.outs).map(|_| *rng.pick(&[1, 32, 100, 8192])).collect();
            ctx.journal(&format!("{} argument {k} altered ({how}) {pl:?}", f.name));
            let r = ffi::call(f, &a, &caps, pl);
            cleanup(f, &r);
            ctx.count("altered contents", 1);
            ctx.count("calls", 1);
            ctx.eval(Some(&format!("{} {k} {how} {pl:?} {caps:?}", f.name)));
            if r.rc != 0 {
                if ffi::last_error().is_empty() {
                    ctx.violation(format!("{}: an error without description (argument {k}, {how})", f.name), json!({}));
                    return;
                }
            } else {
                for (k, b) in r.outs.iter().enumerate() {
                    let n = r.lens[k];
                    if n < 0 || n > caps[k] || !untouched(&b[n as usize..]) {
                        ctx.violation(format!("{}: output {k} of length {n} in a buffer of {}", f.name, caps[k]), json!({}));
                        return;
                    }
                }
            }
        }
    }
    s.close();
}

fn errors(ctx: &mut Ctx, rng: &mut Rng) {
    let words = ["", "a", "error", "é", "機密", "\u{1F511}", "a longer description of what happened", "x\u{301}"];
    let mut msg = String::new();
    for _ in 0..rng.range(1, 8) {
        msg.push_str(rng.pick::<&str>(&words));
    }
    let whole = {
        let c = Buf::cstr(msg.as_bytes(), place(rng));
        ctx.journal("set_error");
        let rc = unsafe { set_error(c.ptr()) };
        if rc != 0 {
            ctx.violation(format!("set_error: {rc}"), json!({"message": msg}));
            return;
        }
        ffi::last_error()
    };
    let mut caps: Vec<c_int> = (1..whole.len() as c_int + 4).collect();
    caps.extend([c_int::MIN, -1, 0, 300, 5000]);
    for cap in caps {
        let pl = place(rng);
        let c = Buf::cstr(msg.as_bytes(), pl);
        unsafe { set_error(c.ptr()) };
        let b = Buf::filled(cap.max(0) as usize, pl, CANARY);
        let mut n = cap;
        ctx.journal(&format!("get_last_error capacity {cap} {pl:?}"));
        let rc = unsafe { get_last_error(b.ptr(), &mut n) };
        ctx.count("error messages", 1);
        ctx.count("calls", 1);
        ctx.eval(Some(&format!("get_last_error {cap} {} {pl:?}", whole.len())));
        if cap <= 0 {
            if rc == 0 {
                ctx.violation(format!("get_last_error: success with a capacity of {cap}"), json!({}));
                return;
            }
            continue;
        }
        let ok = rc == 0
            && n >= 0
            && n < cap
            && whole.as_bytes().starts_with(&b.bytes()[..n as usize])
            && b.bytes()[n as usize] == 0
            && (n as usize == whole.len() || whole.len() as c_int > cap - 1);
        if !ok {
            ctx.violation(
                format!("get_last_error: length {n} for a capacity of {cap} and a message of {} bytes, result {rc}", whole.len()),
                json!({"message": whole, "buffer": hex::encode(b.bytes())}),
            );
            return;
        }
    }
    // nulls
    unsafe {
        let mut n: c_int = 10;
        let b = Buf::filled(10, place(rng), CANARY);
        ctx.journal("get_last_error nulls");
        if get_last_error(std::ptr::null_mut(), &mut n) == 0
            || get_last_error(b.ptr(), std::ptr::null_mut()) == 0
            || get_last_error(std::ptr::null_mut(), std::ptr::null_mut()) == 0
            || set_error(std::ptr::null()) == 0
            || !untouched(b.bytes())
        {
            ctx.violation("a null pointer is accepted by an error function", json!({}));
            return;
        }
    }
    ctx.count("null pointers", 4);
    // not UTF-8
    let mut bytes = rng.bytes(20);
    for x in &mut bytes {
        if *x == 0 {
            *x = 1;
        }
    }
    bytes.push(0xFF);
    let c = Buf::cstr(&bytes, place(rng));
    ctx.journal("set_error not UTF-8");
    if unsafe { set_error(c.ptr()) } == 0 {
        ctx.violation("set_error accepts what is not UTF-8", json!({"bytes": hex::encode(&bytes)}));
    }
    ffi::last_error();
}

fn header_size(ctx: &mut Ctx, rng: &mut Rng) {
    for n in 0..40usize {
        let pl = place(rng);
        let mut data = rng.bytes(n);
        if n >= 4 && rng.chance(1, 2) {
            data[0] = 0;
            data[1] = 0;
        }
        let b = Buf::with(&data, pl);
        for announced in [n as c_int, 0, -1, c_int::MIN, (n as c_int) / 2] {
            ctx.journal(&format!("h_get_encrypted_header_size {announced} {pl:?}"));
            let r = unsafe { h_get_encrypted_header_size(b.ptr().cast_const(), announced) };
            ctx.count("calls", 1);
            ctx.eval(Some(&format!("header size {announced} {pl:?}")));
            if announced < 4 {
                ctx.count("null or negative input lengths", 1);
                if ffi::last_error().is_empty() {
                    ctx.violation(format!("h_get_encrypted_header_size: no error for {announced} bytes"), json!({}));
                    return;
                }
            } else if r != c_int::from_be_bytes(data[..4].try_into().unwrap()) {
                ctx.violation(format!("h_get_encrypted_header_size: {r}"), json!({"bytes": hex::encode(&data)}));
                return;
            }
        }
    }
    let p: *const c_char = std::ptr::null();
    ctx.journal("h_get_encrypted_header_size null");
    unsafe { h_get_encrypted_header_size(p, 10) };
    if ffi::last_error().is_empty() {
        ctx.violation("h_get_encrypted_header_size: no error for a null pointer", json!({}));
    }
    ctx.count("null pointers", 1);
    for h in [c_int::MIN, -1, 1_000_000, c_int::MAX] {
        ctx.journal("destroy an unknown cache");
        ffi::enc_destroy(h);
        ffi::dec_destroy(h);
        ctx.count("calls", 2);
    }
}

fn run(ctx: &mut Ctx) {
    ctx.phase("capacities", 16, 240, sizes);
    ctx.phase("nulls", 12, 160, nulls);
    ctx.phase("lengths", 12, 160, lengths);
    ctx.phase("contents", 32, 800, contents);
    ctx.phase("errors", 16, 200, errors);
    ctx.phase("header size", 4, 40, header_size);
}
