use super::remote::*;
use super::*;
use crate::objects;
use crate::peer::{b, n, s, Fail, Peer, A, R};
use crate::reference as r;
use abe_policy::Policy;
use serde_json::json;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    workers: 8,
    rule: "the module built from the current tree for WebAssembly and loaded by node, called in step with the native functions: every object made on either side used on the other, satisfied and not; histories of cache creations, uses and destructions against a model; then valid calls with one or two arguments spoiled, the outcomes compared with those of the native functions; distinct = (policy, formula, list, sizes, sides), (history) or (function, way of spoiling)",
    floors: &[
        ("policies compared", 12),
        ("keys exchanged", 150),
        ("headers exchanged", 200),
        ("refusals", 100),
        ("blocks exchanged", 300),
        ("cache uses", 300),
        ("uses of destroyed caches refused", 50),
        ("moments with several caches alive", 100),
        ("successes compared", 300),
        ("exceptions compared", 1000),
        ("arguments of another type refused", 60),
    ],
    assumptions: &[MODEL, REF],
};

const FUNCTIONS: [&str; 14] = [
    "webassembly_create_decryption_cache", "webassembly_create_encryption_cache", "webassembly_decrypt_hybrid_block",
    "webassembly_decrypt_hybrid_header", "webassembly_decrypt_hybrid_header_using_cache", "webassembly_destroy_decryption_cache",
    "webassembly_destroy_encryption_cache", "webassembly_encrypt_hybrid_block", "webassembly_encrypt_hybrid_header",
    "webassembly_encrypt_hybrid_header_using_cache", "webassembly_generate_master_keys", "webassembly_generate_user_private_key",
    "webassembly_get_encrypted_header_size", "webassembly_rotate_attributes",
];

struct S<'a> {
    ctx: &'a mut Ctx,
    p: &'a mut Peer,
}

impl S<'_> {
    fn detail(a: &[A]) -> serde_json::Value {
        json!({"arguments": a.iter().map(|x| format!("{x:?}").chars().take(3000).collect::<String>()).collect::<Vec<_>>()})
    }
    fn raw(&mut self, f: &'static str, a: &[A]) -> Option<R> {
        self.ctx.journal(f);
        match self.p.call(f, a) {
            Ok(v) => Some(v),
            Err(e) => {
                self.ctx.violation(format!("{f} failed: {e}"), Self::detail(a));
                None
            }
        }
    }
    /// a call which must succeed and gives bytes
    fn ok(&mut self, f: &'static str, a: Vec<A>) -> Option<Vec<u8>> {
        let o = outputs(self.raw(f, &a)?);
        if o.len() != 1 {
            self.ctx.violation(format!("{f} gives {} values", o.len()), Self::detail(&a));
        }
        o.into_iter().next()
    }
    fn handle(&mut self, f: &'static str, a: Vec<A>) -> Option<i128> {
        match self.raw(f, &a)? {
            R::N(h) => Some(h),
            x => {
                self.ctx.violation(format!("{f} gives {x:?}"), Self::detail(&a));
                None
            }
        }
    }
    /// a call which must throw
    fn refused(&mut self, f: &'static str, a: Vec<A>, what: &str, kind: &str) {
        self.ctx.journal(f);
        match self.p.call(f, &a) {
            Ok(_) => self.ctx.violation(format!("{f} accepts {what}"), Self::detail(&a)),
            Err(Fail::Raised(..)) => self.ctx.count(kind, 1),
            Err(e) => self.ctx.violation(format!("{f} given {what}: {e}"), Self::detail(&a)),
        }
    }
}

macro_rules! some {
    ($e:expr) => {
        match $e {
            Some(v) => v,
            None => return,
        }
    };
}

fn list(rng: &mut Rng, w: &World, l: &[At]) -> String {
    let t: Vec<String> = l.iter().map(|a| format!("{}::{}", w.m.axes[a.0].name, w.m.axes[a.0].attrs[a.1])).collect();
    t.join(if rng.chance(1, 2) { ", " } else { "," })
}

fn pick_uid(rng: &mut Rng) -> Vec<u8> {
    let k = match rng.below(8) {
        0 => 1,
        1 => rng.range(200, 70_000),
        2 => 32,
        _ => rng.range(1, 40),
    };
    rng.bytes(k)
}

pub fn scenario(ctx: &mut Ctx, p: &mut Peer, rng: &mut Rng, big: bool) {
    let pr = if rng.chance(1, 6) { &MEDIUM } else { &SMALL };
    let mut w = if big { large_world(rng, 3) } else { gen_world(rng, &Profile { plain: true, ..*pr }) };
    let mut c = S { ctx, p };
    let mut pol = w.policy.to_string().into_bytes();
    while w.room() > 0 {
        let k = rng.range(1, w.room().min(3) as usize);
        let all = w.m.all();
        let l: Vec<At> = (0..k).map(|_| *rng.pick(&all)).collect();
        for a in &l {
            w.rotate(*a);
        }
        let aj = serde_json::to_vec(&w.m.attrs_of(&l)).expect("attributes");
        pol = some!(c.ok("webassembly_rotate_attributes", vec![b(&aj), b(&pol)]));
        if !same_policy(&pol, w.policy.to_string().as_bytes()) {
            c.ctx.violation("the rotated policy differs from the native one", json!({"got": String::from_utf8_lossy(&pol), "native": w.policy.to_string()}));
            return;
        }
        c.ctx.count("policies compared", 1);
    }
    let native: Policy = must!(c.ctx, serde_json::from_slice(&pol), "policy of the other side");
    if rng.chance(1, 2) {
        pol = w.policy.to_string().into_bytes();
    } else {
        w.policy = native;
    }
    let eng = Eng::new();
    let remote_masters = rng.chance(1, 2);
    let (msk, mpk) = if remote_masters {
        let k = some!(c.ok("webassembly_generate_master_keys", vec![b(&pol)]));
        match split_header(&k) {
            Some((x, y)) => (x.to_vec(), y.to_vec()),
            None => {
                c.ctx.violation("master keys of another form", json!({"keys": hex::encode(&k)}));
                return;
            }
        }
    } else {
        let k = must!(c.ctx, eng.generate_master_key(&w.policy), "master keys");
        (enc(&k.0), enc(&k.1))
    };
    let nmsk: Msk = must!(c.ctx, dec(&msk), "private key of the other side");
    let nmpk: Mpk = must!(c.ctx, dec(&mpk), "public key of the other side");
    if r::RMsk::parse(&msk).map(|k| (k.t.len(), k.public().bytes() == mpk)) != Some((w.m.max as usize + 1, true)) {
        c.ctx.violation("the master keys do not belong together", json!({"policy": String::from_utf8_lossy(&pol)}));
        return;
    }
    c.ctx.count("keys exchanged", 2);
    let eh = some!(c.handle("webassembly_create_encryption_cache", vec![b(&pol), b(&mpk)]));
    for _ in 0..2 {
        let f = if big { large_formula(rng, &w.m) } else { gen_formula(rng, &w.m, 5) };
        let x = w.m.expression(&f);
        let v = w.m.snapshot(&f);
        let remote_key = rng.chance(1, 2);
        let key = if remote_key {
            some!(c.ok("webassembly_generate_user_private_key", vec![b(&msk), s(&x), b(&pol)]))
        } else {
            enc(&must!(c.ctx, eng.generate_user_key(&w.policy, &nmsk, &w.m.access(&f)), "user key"))
        };
        c.ctx.count("keys exchanged", 1);
        let nkey: Uk = must!(c.ctx, dec(&key), "user key of the other side");
        let dh = some!(c.handle("webassembly_create_decryption_cache", vec![b(&key)]));
        for round in 0..3 {
            let l = if round == 2 { gen_unsat(rng, &w.m, &f) } else { gen_sat(rng, &w.m, &f) };
            let opens = v.eval(&w.m.currents(&l));
            let path = if l.is_empty() { 0 } else { rng.below(3) };
            let mut meta: hy::Meta = if path == 0 { c10::gen_meta(rng).unwrap_or_default() } else { (pick_uid(rng), None) };
            if path != 0 && round == 1 && rng.chance(1, 2) {
                // of a length on two bytes, or on three
                let k = *rng.pick(&[65_535, 65_536, 65_537, 70_000]);
                meta.0 = rng.bytes(k);
            }
            let want = hy::expected(Some(&meta));
            let t = list(rng, &w, &l);
            let sig = format!("{} {} {l:?} {}+{:?} {remote_masters}{remote_key}{path}", describe(&w), f.shape(), meta.0.len(), meta.1.as_ref().map(Vec::len));
            let (sk, h) = match path {
                0 => must!(c.ctx, hy::encrypt_header(&w.policy, &nmpk, &w.m.attrs_of(&l), Some(&meta)), "header"),
                _ => {
                    let o = if path == 1 {
                        some!(c.ok("webassembly_encrypt_hybrid_header", vec![b(&pol), b(&mpk), s(&t), b(&meta.0)]))
                    } else {
                        c.ctx.count("cache uses", 1);
                        some!(c.ok("webassembly_encrypt_hybrid_header_using_cache", vec![n(eh), s(&t), b(&meta.0)]))
                    };
                    match split_header(&o) {
                        Some((k, h)) if k.len() == 32 => (k.to_vec(), h.to_vec()),
                        _ => {
                            c.ctx.violation("a header of another form", json!({"case": sig}));
                            return;
                        }
                    }
                }
            };
            match (opens, hy::decrypt_header(&nkey, &h)) {
                (true, Ok((k, m))) if k == sk && m == want => {}
                (false, Err(_)) => {}
                (_, x) => {
                    c.ctx.violation(if opens { "the native function decrypts the header to something else" } else { "the native function accepts a key that is not satisfied" }, json!({"case": sig, "opens": opens, "ok": x.is_ok()}));
                    return;
                }
            }
            let clear = [&32u32.to_be_bytes()[..], &sk, &r::meta_bytes(&want.0, want.1.as_deref())].concat();
            for (f, a) in [
                ("webassembly_decrypt_hybrid_header", vec![b(&key), b(&h)]),
                ("webassembly_decrypt_hybrid_header_using_cache", vec![n(dh), b(&h)]),
            ] {
                if opens {
                    let o = some!(c.ok(f, a));
                    if o != clear {
                        c.ctx.violation("the header decrypts to something else", json!({"function": f, "case": sig, "key": hex::encode(&key), "header": hex::encode(&h[..h.len().min(4000)])}));
                        return;
                    }
                    c.ctx.count("headers exchanged", 1);
                } else {
                    c.refused(f, a, "a key that is not satisfied", "refusals");
                }
                c.ctx.count("cache uses", 1);
            }
            for _ in 0..2 {
                let num = match rng.below(5) {
                    0 => None,
                    1 => Some(u64::from(u32::MAX) - rng.below(2) as u64),
                    2 => Some((1 << 31) + rng.below(3) as u64 - 1),
                    3 => Some(u64::from(rng.u64() as u32)),
                    _ => Some(rng.below(100) as u64),
                };
                let num_arg = num.map_or(A::Null, n);
                let num = num.unwrap_or(0);
                let uid = if rng.chance(1, 6) { vec![] } else { want.0.clone() };
                let uid_arg = if uid.is_empty() && rng.chance(2, 3) { A::Null } else { b(&uid) };
                let size = if rng.chance(1, 12) { rng.range(1, 70_000) } else { rng.range(1, 200) };
                let data = rng.bytes(size);
                let blk = if rng.chance(1, 2) {
                    some!(c.ok("webassembly_encrypt_hybrid_block", vec![b(&sk), uid_arg.clone(), num_arg.clone(), b(&data)]))
                } else {
                    must!(c.ctx, hy::enc_block(&sk, &uid, num as usize, &data), "block")
                };
                let back = some!(c.ok("webassembly_decrypt_hybrid_block", vec![b(&sk), uid_arg.clone(), num_arg, b(&blk)]));
                if back != data || hy::dec_block(&sk, &uid, num as usize, &blk).ok() != Some(data.clone()) || r::block_dec(&sk, &uid, num, &blk) != Some(data) {
                    c.ctx.violation("a block decrypts to something else", json!({"case": sig, "number": num, "size": size, "block": hex::encode(&blk[..blk.len().min(2000)])}));
                    return;
                }
                c.ctx.count("blocks exchanged", 1);
                c.refused("webassembly_decrypt_hybrid_block", vec![b(&sk), uid_arg, n(num ^ 1 << rng.below(32)), b(&blk)], "another block number", "refusals");
                c.refused("webassembly_decrypt_hybrid_block", vec![b(&sk), b(&[&uid[..], b"x"].concat()), n(num), b(&blk)], "another identifier", "refusals");
            }
            let whole = [&(h.len() as u32).to_be_bytes()[..], &h].concat();
            let o = some!(c.ok("webassembly_get_encrypted_header_size", vec![b(&whole)]));
            if o != whole[..4] {
                c.ctx.violation("another header size", json!({"case": sig}));
            }
            c.ctx.eval(Some(&sig));
            if c.ctx.violated() {
                return;
            }
        }
        some!(c.raw("webassembly_destroy_decryption_cache", &[n(dh)]));
        c.refused("webassembly_decrypt_hybrid_header_using_cache", vec![n(dh), b(&[0; 8])], "a destroyed cache", "uses of destroyed caches refused");
    }
    some!(c.raw("webassembly_destroy_encryption_cache", &[n(eh)]));
    let all = w.m.all();
    let t = list(rng, &w, &all[..1]);
    c.refused("webassembly_encrypt_hybrid_header_using_cache", vec![n(eh), s(&t), b(b"uid")], "a destroyed cache", "uses of destroyed caches refused");
    c.ctx.sample(|| format!("{} max {}", describe(&w), w.m.max));
}

/// What a cache was created with
struct Enc {
    auth: usize,
}
struct Dec {
    auth: usize,
    f: F,
    key: Vec<u8>,
}

fn caches(ctx: &mut Ctx, p: &mut Peer, rng: &mut Rng) {
    let mut auths = vec![];
    for _ in 0..2 {
        let w = gen_world(rng, &Profile { plain: true, ..SMALL });
        auths.push(must!(ctx, Auth::new(w), "setup"));
    }
    let mut c = S { ctx, p };
    let mut encs: BTreeMap<i128, Enc> = BTreeMap::new();
    let mut decs: BTreeMap<i128, Dec> = BTreeMap::new();
    let (mut dead_e, mut dead_d): (Vec<i128>, Vec<i128>) = (vec![], vec![]);
    let mut trace = String::new();
    for step in 0..60 {
        let k = rng.below(12);
        trace.push_str(&format!("{k:x}"));
        match k {
            0 | 1 => {
                let i = rng.below(2);
                let pol = auths[i].w.policy.to_string();
                let h = some!(c.handle("webassembly_create_encryption_cache", vec![b(pol.as_bytes()), b(&enc(&auths[i].mpk))]));
                if dead_e.contains(&h) || encs.insert(h, Enc { auth: i }).is_some() {
                    c.ctx.violation("the handle of an encryption cache is given twice", json!({"handle": h.to_string(), "history": trace}));
                    return;
                }
            }
            2 | 3 => {
                let i = rng.below(2);
                let f = gen_formula(rng, &auths[i].w.m, 4);
                let key = enc(&must!(c.ctx, auths[i].key(&f), "user key"));
                let h = some!(c.handle("webassembly_create_decryption_cache", vec![b(&key)]));
                if dead_d.contains(&h) || decs.insert(h, Dec { auth: i, f, key }).is_some() {
                    c.ctx.violation("the handle of a decryption cache is given twice", json!({"handle": h.to_string(), "history": trace}));
                    return;
                }
            }
            4 if !encs.is_empty() => {
                let h = *encs.keys().nth(rng.below(encs.len())).expect("handle");
                encs.remove(&h);
                dead_e.push(h);
                some!(c.raw("webassembly_destroy_encryption_cache", &[n(h)]));
            }
            5 if !decs.is_empty() => {
                let h = *decs.keys().nth(rng.below(decs.len())).expect("handle");
                decs.remove(&h);
                dead_d.push(h);
                some!(c.raw("webassembly_destroy_decryption_cache", &[n(h)]));
            }
            6 => {
                // bad creations leave no cache and take no existing one
                let pol = auths[0].w.policy.to_string();
                let mut k = enc(&auths[0].mpk);
                k.truncate(k.len() - 1 - rng.below(40));
                c.refused("webassembly_create_encryption_cache", vec![b(pol.as_bytes()), b(&k)], "a truncated key", "refusals");
                c.refused("webassembly_create_encryption_cache", vec![b(&pol.as_bytes()[1..]), b(&enc(&auths[0].mpk))], "a truncated policy", "refusals");
                c.refused("webassembly_create_decryption_cache", vec![b(&k)], "a truncated key", "refusals");
            }
            7 => {
                let odd = |dead: &[i128], live: &dyn Fn(i128) -> bool, rng: &mut Rng| {
                    let h = match rng.below(4) {
                        0 => -1,
                        1 => i128::from(i32::MAX),
                        2 => i128::from(i32::MIN),
                        _ if dead.is_empty() => 1_000_000,
                        _ => *rng.pick(dead),
                    };
                    (!live(h)).then_some(h)
                };
                if let Some(h) = odd(&dead_e, &|h| encs.contains_key(&h), rng) {
                    let all = auths[0].w.m.all();
                    let t = list(rng, &auths[0].w, &all[..1]);
                    c.refused("webassembly_encrypt_hybrid_header_using_cache", vec![n(h), s(&t), b(b"uid")], "a handle without cache", "uses of destroyed caches refused");
                }
                if let Some(h) = odd(&dead_d, &|h| decs.contains_key(&h), rng) {
                    c.refused("webassembly_decrypt_hybrid_header_using_cache", vec![n(h), b(&[0; 8])], "a handle without cache", "uses of destroyed caches refused");
                }
            }
            _ => {
                if encs.is_empty() || decs.is_empty() {
                    continue;
                }
                let (eh, x) = encs.iter().nth(rng.below(encs.len())).expect("handle");
                let (dh, d) = decs.iter().nth(rng.below(decs.len())).expect("handle");
                let a = &auths[x.auth];
                // lists of the policy of the encryption cache
                let l = if x.auth == d.auth && rng.chance(2, 3) {
                    gen_sat(rng, &a.w.m, &d.f)
                } else {
                    let all = a.w.m.all();
                    vec![*rng.pick(&all)]
                };
                let opens = x.auth == d.auth && a.w.m.snapshot(&d.f).eval(&a.w.m.currents(&l));
                let uid = rng.bytes(9);
                let t = list(rng, &a.w, &l);
                let o = some!(c.ok("webassembly_encrypt_hybrid_header_using_cache", vec![n(*eh), s(&t), b(&uid)]));
                let Some((sk, h)) = split_header(&o) else {
                    c.ctx.violation("a header of another form", json!({}));
                    return;
                };
                let nk: Uk = dec(&d.key).expect("key");
                let clear = [&32u32.to_be_bytes()[..], sk, &r::meta_bytes(&uid, None)].concat();
                let native = hy::decrypt_header(&nk, h);
                // of another authority, the encapsulated key is another one
                let good = match (&native, c.p.call("webassembly_decrypt_hybrid_header_using_cache", &[n(*dh), b(h)])) {
                    (Ok((k, m)), Ok(R::B(o))) => opens && o == clear && k == sk && m.0 == uid,
                    (Err(_), Err(Fail::Raised(..))) => !opens,
                    (_, Err(e @ (Fail::Panic(_) | Fail::Gone(_)))) => {
                        c.ctx.violation(format!("decryption with a cache: {e}"), json!({"history": trace}));
                        return;
                    }
                    _ => false,
                };
                if !good {
                    c.ctx.violation("a cache does not act as what it was created with", json!({
                        "history": trace, "step": step, "opens": opens, "native": native.is_ok(), "key": hex::encode(&d.key), "header": hex::encode(h)}));
                    return;
                }
                c.ctx.count("cache uses", 2);
            }
        }
        if encs.len() + decs.len() >= 4 {
            c.ctx.count("moments with several caches alive", 1);
        }
        if c.ctx.violated() {
            return;
        }
    }
    for h in encs.keys() {
        some!(c.raw("webassembly_destroy_encryption_cache", &[n(*h)]));
    }
    for h in decs.keys() {
        some!(c.raw("webassembly_destroy_decryption_cache", &[n(*h)]));
    }
    c.ctx.eval(Some(&trace));
}

/// One valid call of each function, and the caches they use
pub fn valid(p: &mut Peer, rng: &mut Rng) -> Result<(Vec<Call>, Caches), String> {
    let o = objects::bench(rng, &Profile { plain: true, ..SMALL })?;
    let w = &o.a.w;
    let pol = w.policy.to_string().into_bytes();
    let t = list(rng, w, &o.l);
    let one = serde_json::to_vec(&w.m.attrs_of(&o.l[..1])).map_err(|e| e.to_string())?;
    let x = w.m.expression(&o.f);
    let (sk, h) = &o.header;
    let k = |k| b(o.of(k));
    use objects::Kind::{Mpk, Msk, Uk};
    let mut caches = Caches::default();
    let mut handle = |f: &str, a: &[A]| match p.call(f, a) {
        Ok(R::N(h)) => Ok(h),
        x => Err(format!("{f}: {x:?}")),
    };
    let eh = handle("webassembly_create_encryption_cache", &[b(&pol), k(Mpk)])?;
    let dh = handle("webassembly_create_decryption_cache", &[k(Uk)])?;
    let mpk = dec(o.of(Mpk)).map_err(|e| e.to_string())?;
    caches.enc.insert(eh, (w.policy.clone(), mpk));
    caches.dec.insert(dh, dec(o.of(Uk)).map_err(|e| e.to_string())?);
    let whole = [&(h.len() as u32).to_be_bytes()[..], h].concat();
    Ok((
        vec![
            call("webassembly_rotate_attributes", vec![b(&one), b(&pol)]),
            call("webassembly_generate_master_keys", vec![b(&pol)]),
            call("webassembly_generate_user_private_key", vec![k(Msk), s(&x), b(&pol)]),
            call("webassembly_get_encrypted_header_size", vec![b(&whole)]),
            call("webassembly_encrypt_hybrid_header", vec![b(&pol), k(Mpk), s(&t), b(b"uid")]),
            call("webassembly_decrypt_hybrid_header", vec![k(Uk), b(h)]),
            call("webassembly_decrypt_hybrid_header", vec![k(Uk), b(h)]),
            call("webassembly_create_encryption_cache", vec![b(&pol), k(Mpk)]),
            call("webassembly_create_decryption_cache", vec![k(Uk)]),
            call("webassembly_encrypt_hybrid_header_using_cache", vec![n(eh), s(&t), b(b"uid")]),
            call("webassembly_decrypt_hybrid_header_using_cache", vec![n(dh), b(h)]),
            call("webassembly_encrypt_hybrid_block", vec![b(sk), b(&o.meta.0), n(3), b(b"some data")]),
            call("webassembly_decrypt_hybrid_block", vec![b(sk), b(&o.meta.0), n(3), b(&o.block)]),
        ],
        caches,
    ))
}

/// A native call for what a successful creation makes live
fn created(c: &Call, caches: &mut Caches, h: i128) {
    match (c.f, &c.a[..]) {
        ("webassembly_create_encryption_cache", [A::B(p), A::B(k)]) => {
            if let (Ok(p), Ok(k)) = (serde_json::from_slice(p), dec(k)) {
                caches.enc.insert(h, (p, k));
            }
        }
        ("webassembly_create_decryption_cache", [A::B(k)]) => {
            if let Ok(k) = dec(k) {
                caches.dec.insert(h, k);
            }
        }
        _ => {}
    }
}

pub fn hostile(ctx: &mut Ctx, p: &mut Peer, rng: &mut Rng, sweep: bool) {
    let (calls, mut caches) = must!(ctx, valid(p, rng), "setup");
    let one = |ctx: &mut Ctx, p: &mut Peer, caches: &mut Caches, c: &Call| {
        let want = ctx.guard(c.f, || wasm(c, caches));
        let Some(want) = want else { return };
        if let Some(o) = compare(ctx, p, c, want) {
            if c.f.contains("create") {
                let h = o.first().and_then(|x| x[..].try_into().ok()).map(i32::from_be_bytes);
                created(c, caches, i128::from(h.expect("handle")));
            }
        }
    };
    for c in &calls {
        if let Err(m) = wasm(c, &caches) {
            if c.f != "webassembly_rotate_attributes" {
                ctx.harness_errors.push(format!("{} is not valid: {m}", c.f));
                return;
            }
        }
        one(ctx, p, &mut caches, c);
    }
    let mut tries = if sweep { shortened(&calls) } else { vec![] };
    for _ in 0..if sweep { 0 } else { 60 } {
        let mut c = rng.pick(&calls).clone();
        let mut how = spoil(rng, &mut c, &calls, &[]);
        if rng.chance(1, 6) {
            how = spoil(rng, &mut c, &calls, &[]);
        }
        tries.push((c, how));
    }
    for (mut c, how) in tries {
        if how == "another number" && c.f.contains("cache") && rng.chance(1, 2) {
            // of the other registry
            c.a[0] = n(*caches.enc.keys().chain(caches.dec.keys()).nth(rng.below(caches.enc.len() + caches.dec.len())).expect("handle"));
        }
        one(ctx, p, &mut caches, &c);
        ctx.eval(Some(&format!("{} {how} {}", c.f, rng.u64())));
        if ctx.violated() {
            return;
        }
    }
    // what is not bytes at all
    for _ in 0..6 {
        let c = rng.pick(&calls).clone();
        let optional = if c.f.ends_with("_block") { &[1usize, 2][..] } else { &[] };
        for i in 0..c.a.len() {
            if optional.contains(&i) || matches!(c.a[i], A::N(_)) {
                continue;
            }
            let mut d = c.clone();
            d.a[i] = if rng.chance(1, 2) { A::Null } else { A::Odd(json!({"u": 1})) };
            S { ctx, p }.refused(d.f, d.a.clone(), "nothing in the place of an argument", "arguments of another type refused");
            if ctx.violated() {
                return;
            }
        }
    }
    // the module and its caches are still usable
    for c in &calls {
        one(ctx, p, &mut caches, c);
    }
    for h in caches.enc.keys() {
        let _ = p.call("webassembly_destroy_encryption_cache", &[n(*h)]);
    }
    for h in caches.dec.keys() {
        let _ = p.call("webassembly_destroy_decryption_cache", &[n(*h)]);
    }
}

fn run(ctx: &mut Ctx) {
    let mut p = c16::start("VMON_WASM");
    let missing: Vec<_> = FUNCTIONS.iter().filter(|f| !p.functions.iter().any(|x| x == *f)).collect();
    if !missing.is_empty() {
        ctx.violation(format!("the module lacks {missing:?}"), json!({}));
        return;
    }
    ctx.phase("exchange", 64, 1600, |ctx, rng| scenario(ctx, &mut p, rng, false));
    ctx.phase("large", 4, 40, |ctx, rng| scenario(ctx, &mut p, rng, true));
    // a master key of more than 2^16 bytes: 32 a value
    ctx.phase("many-values", 1, 8, |ctx, rng| {
        let w = large_world(rng, 2080);
        let pol = w.policy.to_string().into_bytes();
        let k = some!(S { ctx: &mut *ctx, p: &mut p }.ok("webassembly_generate_master_keys", vec![b(&pol)]));
        let parts = split_header(&k);
        let values = w.m.max as usize + 1;
        if parts.and_then(|(x, y)| r::RMsk::parse(x).map(|k| (k.t.len(), k.public().bytes() == y))) != Some((values, true)) {
            ctx.violation("the master keys do not belong together", json!({"values": values, "bytes": k.len(), "first": hex::encode(&k[..8])}));
        }
        ctx.count("keys exchanged", 2);
        ctx.count("master keys of more than 65536 bytes", 1);
        ctx.eval(Some(&format!("many values {values}")));
    });
    ctx.phase("caches", 24, 600, |ctx, rng| caches(ctx, &mut p, rng));
    ctx.phase("hostile", 40, 1000, |ctx, rng| hostile(ctx, &mut p, rng, false));
    ctx.phase("short", 1, 20, |ctx, rng| hostile(ctx, &mut p, rng, true));
    ctx.count("calls served", p.calls);
    interfaces::alikes(ctx, (0, 0, 4));
}
