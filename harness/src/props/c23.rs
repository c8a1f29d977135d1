use super::remote::*;
use super::*;
use crate::ffi;
use crate::objects;
use crate::peer::{b, n, s, Fail, A, R};
use crate::reference as r;
use abe_policy::Policy;
use serde_json::json;
use std::os::raw::c_int;

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    workers: 8,
    rule: "the shared library built from the current tree, its functions found by name, called in step with the native functions: random policies rotated on both sides, every object made on either side used on the other, with and without caches, satisfied and not; then valid calls with one or two arguments spoiled, the outcomes compared with those of the native functions; distinct = (policy, formula, list, metadata sizes, sides) or (function, way of spoiling)",
    floors: &[
        ("headers at the same places", 80),
        ("functions of the shared library", 17),
        ("policies compared", 50),
        ("keys exchanged", 500),
        ("headers exchanged", 1000),
        ("refusals", 2000),
        ("blocks exchanged", 2000),
        ("successes compared", 2000),
        ("exceptions compared", 4000),
    ],
    assumptions: &[MODEL, REF],
};

/// makes the call on the C side
pub fn perform(c: &Call) -> Result<R, Fail> {
    // a text ends at its first null byte
    let t = |i: usize| match &c.a[i] {
        A::S(x) => x.split('\0').next().unwrap_or("").to_string(),
        x => panic!("not a text: {x:?}"),
    };
    let y = |i: usize| match &c.a[i] {
        A::B(x) => x.clone(),
        x => panic!("not bytes: {x:?}"),
    };
    let h = |i: usize| match &c.a[i] {
        A::N(x) => *x as c_int,
        x => panic!("not a number: {x:?}"),
    };
    let l = |x: Vec<Vec<u8>>| R::L(x.into_iter().map(R::B).collect());
    let r = match c.f {
        "h_generate_master_keys" => ffi::get(ffi::MASTER, &ffi::a_master(&t(0))),
        "h_generate_user_private_key" => ffi::get(ffi::USER, &ffi::a_user(&y(0), &t(1), &t(2))),
        "h_rotate_attributes" => ffi::get(ffi::ROTATE, &ffi::a_rotate(&t(0), &t(1))),
        "h_aes_create_encryption_cache" => ffi::get(ffi::ENC_CREATE, &ffi::a_enc_create(&t(0), &y(1))),
        "h_aes_create_decryption_cache" => ffi::get(ffi::DEC_CREATE, &ffi::a_dec_create(&y(0))),
        "h_aes_encrypt_header_using_cache" => ffi::get(ffi::ENC_CACHED, &ffi::a_enc_cached(h(0), &t(1), &y(2), &y(3))),
        "h_aes_encrypt_header" => ffi::get(ffi::ENC, &ffi::a_enc(&t(0), &y(1), &t(2), &y(3), &y(4))),
        "h_aes_decrypt_header_using_cache" => ffi::get(ffi::DEC_CACHED, &ffi::a_dec_cached(h(0), &y(1))),
        "h_aes_decrypt_header" => ffi::get(ffi::DEC, &ffi::a_dec(&y(0), &y(1))),
        "h_aes_encrypt_block" => ffi::get(ffi::BLOCK_ENC, &ffi::a_block(&y(0), &y(1), h(2), &y(3))),
        "h_aes_decrypt_block" => ffi::get(ffi::BLOCK_DEC, &ffi::a_block(&y(0), &y(1), h(2), &y(3))),
        f => panic!("unknown function {f}"),
    };
    r.map(l).map_err(|m| Fail::Raised("error".into(), m))
}

struct S<'a> {
    ctx: &'a mut Ctx,
}
impl S<'_> {
    fn report(&mut self, what: String, c: &Call) {
        let d: Vec<String> = c.a.iter().map(|x| format!("{x:?}").chars().take(3000).collect()).collect();
        self.ctx.violation(what, json!({"arguments": d}));
    }
    fn ok(&mut self, f: &'static str, a: Vec<A>) -> Option<Vec<Vec<u8>>> {
        self.ctx.journal(f);
        let c = call(f, a);
        match perform(&c) {
            Ok(v) => Some(outputs(v)),
            Err(e) => {
                self.report(format!("{f} failed: {e}"), &c);
                None
            }
        }
    }
    fn refused(&mut self, f: &'static str, a: Vec<A>, what: &str) {
        self.ctx.journal(f);
        let c = call(f, a);
        if perform(&c).is_ok() {
            self.report(format!("{f} accepts {what}"), &c);
        }
        self.ctx.count("refusals", 1);
    }
}

macro_rules! some {
    ($e:expr) => {
        match $e {
            Some(v) => v,
            None => return,
        }
    };
}

fn hnum(o: &[Vec<u8>]) -> c_int {
    c_int::from_be_bytes(o[0][..].try_into().expect("handle"))
}

fn js<T: serde::Serialize>(t: &T) -> String {
    serde_json::to_string(t).expect("json")
}

pub fn scenario(ctx: &mut Ctx, rng: &mut Rng, big: bool) {
    let p = profile(rng);
    let mut w = match big {
        // master keys of more than 65535 bytes too
        true => {
            let spare = if ctx.case() % 3 == 0 { 2000 } else { 3 };
            large_world(rng, spare)
        }
        false => gen_world(rng, &Profile { plain: true, ..*p }),
    };
    let mut c = S { ctx };
    // rotations
    let mut pol = w.policy.to_string();
    while w.room() > 0 && rng.chance(4, 5) {
        let k = rng.range(1, w.room().min(3) as usize);
        let all = w.m.all();
        let l: Vec<At> = (0..k).map(|_| *rng.pick(&all)).collect();
        for a in &l {
            w.rotate(*a);
        }
        let aj = js(&w.m.attrs_of(&l));
        let o = some!(c.ok("h_rotate_attributes", vec![s(&aj), s(&pol)])).remove(0);
        if !same_policy(&o, w.policy.to_string().as_bytes()) {
            c.ctx.violation("the policy differs from the native one", json!({"got": String::from_utf8_lossy(&o), "native": w.policy.to_string()}));
            return;
        }
        c.ctx.count("policies compared", 1);
        pol = String::from_utf8(o).expect("compared");
    }
    if rng.chance(1, 2) {
        pol = w.policy.to_string();
    } else {
        w.policy = must!(c.ctx, serde_json::from_str::<Policy>(&pol), "policy of the other side");
    }
    let eng = Eng::new();
    let remote_masters = rng.chance(1, 2);
    let (msk, mpk, mdk) = if remote_masters {
        let o = some!(c.ok("h_generate_master_keys", vec![s(&pol)])).remove(0);
        let Some((a, b)) = ffi::split_master(&o) else {
            c.ctx.violation("master keys that cannot be split", json!({"bytes": hex::encode(&o[..o.len().min(3000)])}));
            return;
        };
        let Some(m) = r::RMsk::parse(&a) else {
            c.ctx.violation("a private key that cannot be read", json!({"bytes": hex::encode(&a)}));
            return;
        };
        (a, b, m.delegation().bytes())
    } else {
        let k = must!(c.ctx, eng.generate_master_key(&w.policy), "master keys");
        (enc(&k.0), enc(&k.1), enc(&k.2))
    };
    let nmsk: Msk = must!(c.ctx, dec(&msk), "private key of the other side");
    let nmpk: Mpk = must!(c.ctx, dec(&mpk), "public key of the other side");
    let nmdk: Mdk = must!(c.ctx, dec(&mdk), "delegation key of the other side");
    if r::RMsk::parse(&msk).map(|k| (k.t.len(), k.public().bytes() == mpk)) != Some((w.m.max as usize + 1, true)) {
        c.ctx.violation("the master keys do not belong together", json!({"policy": pol}));
        return;
    }
    c.ctx.count("keys exchanged", 2);
    let he = hnum(&some!(c.ok("h_aes_create_encryption_cache", vec![s(&pol), b(&mpk)])));
    for _ in 0..2 {
        let f = if big { large_formula(rng, &w.m) } else { gen_formula(rng, &w.m, 7) };
        let mut v = w.m.snapshot(&f);
        let remote_key = rng.chance(1, 2);
        let mut key = if remote_key {
            some!(c.ok("h_generate_user_private_key", vec![b(&msk), s(&js(&w.m.access(&f))), s(&pol)])).remove(0)
        } else {
            enc(&must!(c.ctx, eng.generate_user_key(&w.policy, &nmsk, &w.m.access(&f)), "user key"))
        };
        let deleg = rng.chance(1, 3);
        if deleg {
            // there is no delegation in C, but delegated keys are keys
            let g = c04::narrower(rng, &f);
            let k: Uk = must!(c.ctx, dec(&key), "user key of the other side");
            key = enc(&must!(c.ctx, eng.delegate_user_key(&w.policy, &nmdk, &k, &w.m.access(&g)), "delegation"));
            v = w.m.snapshot(&g);
        }
        c.ctx.count("keys exchanged", 1);
        let nkey: Uk = must!(c.ctx, dec(&key), "user key of the other side");
        let hd = hnum(&some!(c.ok("h_aes_create_decryption_cache", vec![b(&key)])));
        for round in 0..3 {
            let l = if round == 2 { gen_unsat(rng, &w.m, &f) } else { gen_sat(rng, &w.m, &f) };
            let opens = v.eval(&w.m.currents(&l));
            let meta = c10::gen_meta(rng).unwrap_or_default();
            let want = hy::expected(Some(&meta));
            let aj = js(&w.m.attrs_of(&l));
            let ad = meta.1.clone().unwrap_or_default();
            let how = rng.below(3);
            let sig = format!("{} {} {l:?} {}+{} {remote_masters}{remote_key}{deleg}{how}", describe(&w), f.shape(), meta.0.len(), ad.len());
            let (sk, h) = match how {
                0 => must!(c.ctx, hy::encrypt_header(&w.policy, &nmpk, &w.m.attrs_of(&l), Some(&meta)), "header"),
                _ => {
                    let o = some!(if how == 1 {
                        c.ok("h_aes_encrypt_header_using_cache", vec![n(he), s(&aj), b(&meta.0), b(&ad)])
                    } else {
                        c.ok("h_aes_encrypt_header", vec![s(&pol), b(&mpk), s(&aj), b(&meta.0), b(&ad)])
                    });
                    (o[0].clone(), o[1].clone())
                }
            };
            match (opens, hy::decrypt_header(&nkey, &h)) {
                (true, Ok((k, m))) if k == sk && m == want => {}
                (false, Err(_)) => {}
                (_, x) => {
                    c.ctx.violation(if opens { "the native function decrypts the header to something else" } else { "the native function accepts a key that is not satisfied" }, json!({"case": sig, "opens": opens, "ok": x.is_ok()}));
                    return;
                }
            }
            for cached in [false, true] {
                let (f, a) = if cached {
                    ("h_aes_decrypt_header_using_cache", vec![n(hd), b(&h)])
                } else {
                    ("h_aes_decrypt_header", vec![b(&h), b(&key)])
                };
                if opens {
                    let o = some!(c.ok(f, a));
                    if o[0] != sk || o[1] != want.0 || o[2] != want.1.clone().unwrap_or_default() {
                        c.ctx.violation(format!("{f}: the header decrypts to something else"), json!({"case": sig, "key": hex::encode(&key), "header": hex::encode(&h[..h.len().min(4000)])}));
                        return;
                    }
                    c.ctx.count("headers exchanged", 1);
                } else {
                    c.refused(f, a, "a key that is not satisfied");
                }
            }
            // a complete message starts with the size of the header
            let whole = [&(h.len() as u32).to_be_bytes()[..], &h[..], b"what follows"].concat();
            if ffi::header_size(&whole) as usize != h.len() {
                c.ctx.violation("h_get_encrypted_header_size gives another size", json!({"case": sig, "size": h.len()}));
            }
            for _ in 0..3 {
                let num = match rng.below(6) {
                    0 => 0,
                    1 => c_int::MAX - rng.below(2) as c_int,
                    2 => c_int::MIN + rng.below(2) as c_int,
                    3 => -1 - rng.below(300) as c_int,
                    4 => rng.u64() as c_int,
                    _ => rng.below(70_000) as c_int,
                };
                let size = if rng.chance(1, 10) { rng.range(1, 100_000) } else { rng.range(1, 200) };
                let data = rng.bytes(size);
                let blk = if rng.chance(1, 2) {
                    some!(c.ok("h_aes_encrypt_block", vec![b(&sk), b(&want.0), n(num), b(&data)])).remove(0)
                } else {
                    must!(c.ctx, hy::enc_block(&sk, &want.0, num as usize, &data), "block")
                };
                let back = some!(c.ok("h_aes_decrypt_block", vec![b(&sk), b(&want.0), n(num), b(&blk)])).remove(0);
                if back != data || hy::dec_block(&sk, &want.0, num as usize, &blk).ok() != Some(data.clone()) || r::block_dec(&sk, &want.0, num as u64, &blk) != Some(data) {
                    c.ctx.violation("a block decrypts to something else", json!({"case": sig, "number": num, "size": size, "block": hex::encode(&blk[..blk.len().min(2000)])}));
                    return;
                }
                c.ctx.count("blocks exchanged", 1);
                c.refused("h_aes_decrypt_block", vec![b(&sk), b(&want.0), n(num ^ 1 << rng.below(32)), b(&blk)], "another block number");
                c.refused("h_aes_decrypt_block", vec![b(&sk), b(&[&want.0[..], b"x"].concat()), n(num), b(&blk)], "another identifier");
            }
            c.ctx.eval(Some(&sig));
            if c.ctx.violated() {
                return;
            }
        }
        ffi::dec_destroy(hd);
        c.refused("h_aes_decrypt_header_using_cache", vec![n(hd), b(&[0; 100])], "a destroyed cache");
    }
    ffi::enc_destroy(he);
    c.refused("h_aes_encrypt_header_using_cache", vec![n(he), s(&js(&w.m.attrs_of(&w.m.all()))), b(&[]), b(&[])], "a destroyed cache");
    c.ctx.sample(|| format!("{} max {}", describe(&w), w.m.max));
}

/// One valid call of each function
fn valid(rng: &mut Rng, caches: &mut Caches) -> Result<Vec<Call>, String> {
    let o = objects::bench(rng, &Profile { plain: true, ..SMALL })?;
    let w = &o.a.w;
    let pol = w.policy.to_string();
    let aj = js(&w.m.attrs_of(&o.l));
    let one = js(&w.m.attrs_of(&o.l[..1]));
    let x = js(&w.m.access(&o.f));
    let (sk, h) = &o.header;
    let ad = o.meta.1.clone().unwrap_or_default();
    let k = |k| b(o.of(k));
    use objects::Kind::{Mpk, Msk, Uk};
    let create = |c: Call| match perform(&c).map(outputs) {
        Ok(o) => Ok(hnum(&o)),
        Err(m) => Err(format!("{}: {m}", c.f)),
    };
    let he = create(call("h_aes_create_encryption_cache", vec![s(&pol), k(Mpk)]))?;
    let hd = create(call("h_aes_create_decryption_cache", vec![k(Uk)]))?;
    let mut calls = vec![
        call("h_rotate_attributes", vec![s(&one), s(&pol)]),
        call("h_generate_master_keys", vec![s(&pol)]),
        call("h_generate_user_private_key", vec![k(Msk), s(&x), s(&pol)]),
        call("h_aes_create_encryption_cache", vec![s(&pol), k(Mpk)]),
        call("h_aes_create_decryption_cache", vec![k(Uk)]),
        call("h_aes_encrypt_header_using_cache", vec![n(he), s(&aj), b(&o.meta.0), b(&ad)]),
        call("h_aes_encrypt_header", vec![s(&pol), k(Mpk), s(&aj), b(&o.meta.0), b(&ad)]),
        call("h_aes_decrypt_header_using_cache", vec![n(hd), b(h)]),
        call("h_aes_decrypt_header", vec![b(h), k(Uk)]),
        call("h_aes_encrypt_block", vec![b(sk), b(&o.meta.0), n(3), b(b"some data")]),
        call("h_aes_decrypt_block", vec![b(sk), b(&o.meta.0), n(3), b(&o.block)]),
    ];
    // requests of other meanings, or of none
    for _ in 0..4 {
        let f = gen_formula(rng, &w.m, 6);
        let mut y = js(&w.m.access(&f));
        match rng.below(4) {
            0 => y = format!("{{\"And\":[{y},{x}]}}"),
            1 => y = format!("{{\"Or\":[{y},\"All\"]}}"),
            2 => y = "\"All\"".into(),
            _ => {}
        }
        calls.push(call("h_generate_user_private_key", vec![k(Msk), s(&y), s(&pol)]));
        let l = gen_sat(rng, &w.m, &f);
        let mut l = w.m.attrs_of(&l);
        match rng.below(4) {
            0 => l.push(abe_policy::Attribute::new("Ghost", "none")),
            1 => l.push(l[0].clone()),
            2 => l.clear(),
            _ => {}
        }
        calls.push(call("h_aes_encrypt_header", vec![s(&pol), k(Mpk), s(&js(&l)), b(&o.meta.0), b(&ad)]));
        calls.push(call("h_aes_encrypt_header_using_cache", vec![n(he), s(&js(&l)), b(&o.meta.0), b(&ad)]));
        calls.push(call("h_rotate_attributes", vec![s(&js(&l)), s(&pol)]));
    }
    let objects::Bench { a, key, .. } = o;
    caches.enc.insert(he.into(), (a.w.policy, a.mpk));
    caches.dec.insert(hd.into(), key);
    Ok(calls)
}

fn one(ctx: &mut Ctx, c: &Call, caches: &Caches) -> bool {
    let cut = Call {
        f: c.f,
        a: c.a.iter().map(|x| match x {
            A::S(t) => A::S(t.split('\0').next().unwrap_or("").into()),
            x => x.clone(),
        }).collect(),
    };
    let Some(want) = ctx.guard(c.f, || c_functions(&cut, caches)) else { return false };
    if want.as_ref().err().map(String::as_str) == Some(TOO_LARGE) {
        ctx.count("requests too large to be tried", 1);
        return true;
    }
    ctx.journal(c.f);
    let got = perform(c);
    let made = compared(ctx, c, got, want);
    if let (true, Some(o)) = (c.f.contains("create"), &made) {
        let h = hnum(o);
        if caches.enc.contains_key(&h.into()) && c.f.contains("encryption") || caches.dec.contains_key(&h.into()) && c.f.contains("decryption") {
            ctx.violation(format!("{}: the handle is already in use", c.f), json!({}));
        }
        if c.f.contains("encryption") {
            ffi::enc_destroy(h);
        } else {
            ffi::dec_destroy(h);
        }
    }
    !ctx.violated()
}

pub fn hostile(ctx: &mut Ctx, rng: &mut Rng, sweep: bool) {
    let mut caches = Caches::default();
    let calls = must!(ctx, valid(rng, &mut caches), "setup");
    for c in &calls {
        if !one(ctx, c, &caches) {
            return;
        }
    }
    let mut tries = if sweep { shortened(&calls) } else { vec![] };
    for _ in 0..if sweep { 0 } else { 160 } {
        let mut c = rng.pick(&calls).clone();
        let mut how = spoil(rng, &mut c, &calls, &[]);
        if rng.chance(1, 6) {
            how = spoil(rng, &mut c, &calls, &[]);
        }
        tries.push((c, how));
    }
    for (mut c, how) in tries {
        if let Some(A::N(x)) = c.a.iter_mut().find(|x| matches!(x, A::N(_))) {
            *x = i128::from(*x as c_int);
        }
        if !one(ctx, &c, &caches) {
            return;
        }
        ctx.eval(Some(&format!("{} {how} {}", c.f, rng.u64())));
    }
    for h in caches.enc.keys() {
        ffi::enc_destroy(*h as c_int);
    }
    for h in caches.dec.keys() {
        ffi::dec_destroy(*h as c_int);
    }
}

fn run(ctx: &mut Ctx) {
    match ffi::load() {
        Ok(true) => ctx.count("functions of the shared library", 17),
        Ok(false) => {}
        Err(m) => {
            ctx.violation(format!("the shared library: {m}"), json!({}));
            return;
        }
    }
    if ffi::overhead() as usize != cosmian_abe_gpsw::interfaces::hybrid_crypto::symmetric_encryption_overhead::<hy::Aes, { hy::MAX }>() {
        ctx.violation("the announced overhead is another", json!({"overhead": ffi::overhead()}));
    }
    ctx.phase("exchange", 200, 8000, |ctx, rng| scenario(ctx, rng, false));
    ctx.phase("large", 8, 100, |ctx, rng| scenario(ctx, rng, true));
    ctx.phase("short", 2, 40, |ctx, rng| hostile(ctx, rng, true));
    ctx.phase("hostile", 80, 4000, |ctx, rng| hostile(ctx, rng, false));
    interfaces::alikes(ctx, (24, 0, 0));
    places::run(ctx, 8, |_| true, |ctx, rng| {
        places::headers(ctx, rng);
        places::blocks(ctx, rng);
    });
}
