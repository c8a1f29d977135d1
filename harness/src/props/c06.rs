use super::*;
use crate::reference::*;
use cosmian_abe_gpsw::core::bilinear_map::{bls12_381::{Bls12_381, Scalar as LScalar}, BilinearMap};
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_abe_gpsw::core::msp::{MonotoneSpanProgram, Node};
use cosmian_bls12_381::{G1Affine, G2Affine, Gt};
use serde_json::json;
use std::fmt::Debug;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    workers: 8,
    rule: "objects of every serializable type made by the library from random policies, formulas, lists and metadata; announced length, equality, identity of the bytes serialized again, display, and behaviour of what is read back compared with the original; distinct = (type, shape of the object)",
    floors: &[
        ("master keys", 50), ("user keys", 100), ("cipher texts", 100), ("span programs", 100),
        ("scalars and group elements", 300), ("integers", 300), ("vectors", 100), ("vectors of more than 65535 elements", 9), ("objects of more than 65535 elements", 4), ("headers", 50),
        ("behaviours compared", 100), ("altered objects compared", 3000),
    ],
    assumptions: &[MODEL],
};

fn same<T: AsBytes>(ctx: &mut Ctx, t: &T, eq: impl Fn(&T, &T) -> bool, what: &str) -> Option<T> {
    ctx.journal(what);
    let b = match t.try_into_bytes() {
        Ok(b) => b,
        Err(e) => {
            ctx.violation(format!("{what}: serialization failed: {e}"), json!({}));
            return None;
        }
    };
    if b.len() != t.len_bytes() {
        ctx.violation(format!("{what}: {} bytes announced, {} written", t.len_bytes(), b.len()), json!({"bytes": hex::encode(&b)}));
        return None;
    }
    let r = match T::try_from_bytes(&b) {
        Ok(r) => r,
        Err(e) => {
            ctx.violation(format!("{what}: deserialization failed: {e}"), json!({"bytes": hex::encode(&b)}));
            return None;
        }
    };
    if !eq(t, &r) {
        ctx.violation(format!("{what}: comes back different"), json!({"bytes": hex::encode(&b)}));
        return None;
    }
    if r.len_bytes() != b.len() {
        ctx.violation(format!("{what}: length {} once read, {} bytes", r.len_bytes(), b.len()), json!({}));
        return None;
    }
    match r.try_into_bytes() {
        Ok(c) if c == b => {}
        _ => {
            ctx.violation(format!("{what}: serializes differently once read"), json!({"bytes": hex::encode(&b)}));
            return None;
        }
    }
    // followed by something else, as inside another object
    let mut longer = b.clone();
    longer.extend_from_slice(&[0xA5; 7]);
    if !b.is_empty() {
        match T::try_from_bytes(&longer) {
            Ok(r) if eq(t, &r) && r.len_bytes() == b.len() => {}
            _ => {
                ctx.violation(format!("{what}: cannot be read when followed by other bytes"), json!({"bytes": hex::encode(&b)}));
                return None;
            }
        }
    }
    // what reads as other bytes is another object
    if (1..20_000).contains(&b.len()) {
        let mut rng = Rng::new(crate::rng::hash_bytes(&b));
        for i in 0..8 {
            let mut x = b.clone();
            let c = *rng.pick(&[4usize, 32, 48, 96]);
            if i < 4 || b.len() < 4 + 2 * c {
                let j = rng.below(x.len());
                x[j] ^= 1 << rng.below(8);
            } else {
                let n = (b.len() - 4) / c;
                let (p, q) = (4 + c * rng.below(n), 4 + c * rng.below(n));
                for k in 0..c {
                    x.swap(p + k, q + k);
                }
            }
            if let Some(o) = T::try_from_bytes(&x).ok() {
                let y = o.try_into_bytes().unwrap_or_default();
                if y != b && (eq(t, &o) || eq(&o, t)) {
                    ctx.violation(format!("{what}: equal to an object of other bytes"), json!({"bytes": hex::encode(&b), "other": hex::encode(&y)}));
                    return None;
                }
                ctx.count("altered objects compared", 1);
            }
        }
    }
    ctx.eval(Some(&format!("{what} {}", b.len())));
    Some(r)
}

fn eqd<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn vectors<T: AsBytes + PartialEq + Debug>(ctx: &mut Ctx, rng: &mut Rng, mut f: impl FnMut(&mut Rng) -> T, what: &str) {
    let n = *rng.pick(&[1usize, 1, 2, 3, 5, 9, 17, 40]);
    let v: Vec<T> = (0..n).map(|_| f(rng)).collect();
    same(ctx, &v, eqd, what);
    ctx.count("vectors", 1);
}

fn header<S: Fn(&[u8]) -> Result<(Vec<u8>, Vec<u8>), String>>(ctx: &mut Ctx, b: &[u8], parse: S, expect: (&[u8], &[u8]), what: &str) {
    match parse(b) {
        Ok((k, r)) if k == expect.0 && r == expect.1 => {}
        Ok(_) => ctx.violation(format!("{what}: comes back different"), json!({"bytes": hex::encode(b)})),
        Err(e) => ctx.violation(format!("{what}: {e}"), json!({"bytes": hex::encode(b)})),
    }
    ctx.count("headers", 1);
    ctx.eval(Some(&format!("{what} {}", b.len())));
}

/// The headers of an encryption with these metadata, and of its decryption
fn headers(ctx: &mut Ctx, a: &Auth, key: &Uk, l: &[At], meta: Option<&hy::Meta>) {
    let h = must!(
        ctx,
        hy::encrypt_hybrid_header::<Sch, hy::Aes>(&a.w.policy, &a.mpk, &a.w.m.attrs_of(l), meta.map(hy::metadata)),
        "header"
    );
    let b = must!(ctx, h.try_into_bytes(), "encrypted header to bytes");
    let k = hy::key_bytes(&h.symmetric_key);
    header(ctx, &b, |b| {
        hy::EncryptedHeader::<hy::Aes>::try_from_bytes(b)
            .map(|h| (hy::key_bytes(&h.symmetric_key), h.encrypted_header_bytes))
            .map_err(|e| e.to_string())
    }, (&k, &h.encrypted_header_bytes), "encrypted header");
    let c = must!(ctx, hy::decrypt_hybrid_header::<Sch, hy::Aes>(key, &h.encrypted_header_bytes), "header");
    let m = (c.meta_data.uid.clone(), c.meta_data.additional_data.clone());
    let b = must!(ctx, c.try_into_bytes(), "clear header to bytes");
    match hy::ClearTextHeader::<hy::Aes>::try_from_bytes(&b) {
        Ok(d) if hy::key_bytes(&d.symmetric_key) == k && (d.meta_data.uid.clone(), d.meta_data.additional_data.clone()) == m => {
            if d.try_into_bytes().ok().as_ref() != Some(&b) {
                ctx.violation("clear header: serializes differently once read", json!({}));
            }
        }
        Ok(_) => ctx.violation("clear header: comes back different", json!({"bytes": hex::encode(&b)})),
        Err(e) => ctx.violation(format!("clear header: {e}"), json!({"bytes": hex::encode(&b)})),
    }
    // a header made from its parts, as a caller may
    let free = hy::ClearTextHeader::<hy::Aes> { symmetric_key: c.symmetric_key.clone(), meta_data: hy::metadata(&hy::expected(meta)) };
    let b2 = must!(ctx, free.try_into_bytes(), "clear header to bytes");
    if b2 != b {
        ctx.violation("clear header: two equal ones serialize differently", json!({"bytes": [hex::encode(&b), hex::encode(&b2)]}));
    }
    ctx.count("headers", 1);
    ctx.eval(Some(&format!("clear header {}", b.len())));
}

fn run(ctx: &mut Ctx) {
    let g = Bls12_381;
    ctx.phase("objects", 160, 3000, |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let a = must!(ctx, Auth::new(w), "setup");
        let msk = same(ctx, &a.msk, eqd, "master private key");
        let mpk = same(ctx, &a.mpk, eqd, "master public key");
        let mdk = same(ctx, &a.mdk, eqd, "master delegation key");
        ctx.count("master keys", 3);
        let (Some(msk), Some(mpk), Some(mdk)) = (msk, mpk, mdk) else { return };
        for (d, b) in [
            (a.msk.to_string(), enc(&a.msk)),
            (a.mpk.to_string(), enc(&a.mpk)),
            (a.mdk.to_string(), enc(&a.mdk)),
        ] {
            if d != hex::encode(&b) {
                ctx.violation("a master key displays as something else than its bytes", json!({"display": d, "bytes": hex::encode(b)}));
                return;
            }
        }
        let f = gen_formula(rng, &a.w.m, 12);
        // the keys read back are used for one half of the operations
        let key = must!(ctx, a.eng.generate_user_key(&a.w.policy, &msk, &a.w.m.access(&f)), "key");
        let Some(key2) = same(ctx, &key, eqd, "user key") else { return };
        if key.to_string() != hex::encode(enc(&key)) {
            ctx.violation("a user key displays as something else than its bytes", json!({}));
        }
        ctx.count("user keys", 1);
        let del = must!(ctx, a.eng.delegate_user_key(&a.w.policy, &mdk, &key2, &abe_policy::AccessPolicy::All), "delegation");
        let Some(del2) = same(ctx, &del, eqd, "delegated user key") else { return };
        ctx.count("user keys", 1);
        let all = must!(ctx, a.eng.generate_user_key(&a.w.policy, &msk, &abe_policy::AccessPolicy::All), "key for all");
        let Some(all2) = same(ctx, &all, eqd, "user key for all attributes") else { return };
        for i in 0..3 {
            let l = match i {
                0 => gen_sat(rng, &a.w.m, &f),
                1 => gen_unsat(rng, &a.w.m, &f),
                _ => a.w.m.all(),
            };
            if l.is_empty() {
                continue;
            }
            let msg = must!(ctx, a.message(), "message");
            let ct = must!(ctx, a.eng.encrypt(&a.w.policy, &mpk, &a.w.m.attrs_of(&l), &msg), "encrypt");
            // cipher texts have no equality of their own
            let Some(ct2) = same(ctx, &ct, |x, y| enc(x) == enc(y), "cipher text") else { return };
            ctx.count("cipher texts", 1);
            for (k1, k2) in [(&key, &key2), (&del, &del2), (&all, &all2)] {
                let r1 = a.eng.decrypt(&ct, k1).ok().flatten();
                let r2 = a.eng.decrypt(&ct2, k2).ok().flatten();
                if r1 != r2 {
                    ctx.violation("keys and cipher texts read back behave differently", json!({"key": hex::encode(enc(k1)), "ciphertext": hex::encode(enc(&ct))}));
                    return;
                }
                ctx.count("behaviours compared", 1);
            }
        }
        let l = gen_sat(rng, &a.w.m, &f);
        for _ in 0..3 {
            let meta = super::c10::gen_meta(rng);
            headers(ctx, &a, &key2, &l, meta.as_ref());
        }
    });
    ctx.phase("big", 4, 40, |ctx, rng| {
        // more than 255 elements of each kind, once public keys over 65535 bytes
        let n = if ctx.case() % 4 == 3 { rng.range(1370, 1500) } else { rng.range(257, 300) };
        let a = must!(ctx, Auth::new(flat(n)), "setup");
        let mut leaves = a.w.m.all();
        rng.shuffle(&mut leaves);
        leaves.truncate(300);
        let f = gen_tree(rng, &leaves, if ctx.case() == 0 { 10 } else { 2 }, 0);
        let key = must!(ctx, a.key(&f), "key");
        let ct = must!(ctx, a.encrypt(&a.w.m.all(), &must!(ctx, a.message(), "message")), "encrypt");
        for (d, b) in [
            (a.msk.to_string(), enc(&a.msk)),
            (a.mpk.to_string(), enc(&a.mpk)),
            (a.mdk.to_string(), enc(&a.mdk)),
            (key.to_string(), enc(&key)),
        ] {
            if d != hex::encode(&b) {
                ctx.violation("a large key displays as something else than its bytes", json!({"characters": d.len(), "bytes": b.len()}));
                return;
            }
            ctx.count("large keys displayed", 1);
        }
        ctx.journal("large keys displayed");
        same(ctx, &a.msk, eqd, "master private key");
        ctx.journal("large private key");
        same(ctx, &a.mpk, eqd, "master public key");
        ctx.journal("large public key");
        same(ctx, &a.mdk, eqd, "master delegation key");
        ctx.journal("large delegation key");
        same(ctx, &key, eqd, "user key");
        ctx.journal("large user key");
        same(ctx, &ct, |x, y| enc(x) == enc(y), "cipher text");
        ctx.count("objects of more than 255 elements", 5);
    });
    ctx.phase("long-vectors", 32, 200, |ctx, rng| {
        // around the powers of two, up to 2^18
        let k = ctx.case() as usize % 16 + 3;
        for d in -1i64..2 {
            let n = ((1i64 << k) + d) as usize;
            let v: Vec<u32> = (0..n).map(|_| rng.u64() as u32).collect();
            same(ctx, &v, eqd, "vector of u32");
            let v: Vec<i32> = (0..n).map(|_| rng.u64() as i32).collect();
            same(ctx, &v, eqd, "vector of i32");
            let v: Vec<LScalar> = (0..n).map(|_| LScalar::from(rng.u64() as i32)).collect();
            same(ctx, &v, eqd, "vector of scalars");
            ctx.count("vectors", 3);
            ctx.count("vectors of more than 65535 elements", 3 * (n > 65535) as u64);
        }
    });
    ctx.phase("wide-programs", 8, 40, |ctx, rng| {
        // more than 65535 rows, or columns
        let n = 65_530 + rng.range(0, 700);
        let (rows, cols) = if ctx.case() % 2 == 0 { (n, rng.range(1, 2)) } else { (rng.range(1, 2), n) };
        let first = rng.u64() as u32;
        let mut b = vec![];
        for x in [rows as u32, cols as u32] {
            b.extend(x.to_be_bytes());
        }
        for i in 0..rows {
            b.extend(first.wrapping_add(i as u32).to_be_bytes());
        }
        let ints = |rng: &mut Rng| (0..rows * cols).flat_map(|_| (rng.u64() as i32 / 2).to_be_bytes()).collect::<Vec<_>>();
        let bi = [b.clone(), ints(rng)].concat();
        let m = must!(ctx, MonotoneSpanProgram::<i32>::try_from_bytes(&bi), "span program");
        same(ctx, &m, eqd, "span program of integers");
        let s = MonotoneSpanProgram::<LScalar>::from(&m);
        same(ctx, &s, eqd, "span program of scalars");
        if enc(&m) != bi {
            ctx.violation(format!("span program of {rows} rows and {cols} columns: serializes differently once read"), json!({}));
        }
        ctx.count("span programs", 2);
        ctx.count("objects of more than 65535 elements", 2 * (n > 65535) as u64);
        #[cfg(feature = "clear")]
        {
            use crate::clear::Clr;
            // a key of this program, a cipher text of as many attributes, master keys of as many values
            let el = |rng: &mut Rng, n: usize| (0..n).flat_map(|_| scalar(rng).to_bytes()).collect::<Vec<u8>>();
            let len = |n: usize| (n as u32).to_be_bytes().to_vec();
            let kb = [len(rows), el(rng, rows), enc(&s)].concat();
            let k = must!(ctx, <Clr as cosmian_abe_gpsw::core::gpsw::AbeScheme>::UserDecryptionKey::try_from_bytes(&kb), "key");
            same(ctx, &k, |x, y| x == y && enc(x) == kb && enc(y) == kb, "user key");
            let gamma: Vec<u32> = (0..n as u32).map(|i| first.wrapping_add(i)).collect();
            let cb = [enc(&gamma), len(n), el(rng, n + 1)].concat();
            let c = must!(ctx, <Clr as cosmian_abe_gpsw::core::gpsw::AbeScheme>::CipherText::try_from_bytes(&cb), "cipher text");
            same(ctx, &c, |x, y| enc(x) == cb && enc(y) == cb, "cipher text");
            let mb = [len(n), el(rng, n + 1)].concat();
            let m = must!(ctx, <Clr as cosmian_abe_gpsw::core::gpsw::AbeScheme>::MasterPrivateKey::try_from_bytes(&mb), "master key");
            same(ctx, &m, |x, y| enc(x) == mb && enc(y) == mb, "master private key");
            let m = must!(ctx, <Clr as cosmian_abe_gpsw::core::gpsw::AbeScheme>::MasterPublicKey::try_from_bytes(&mb), "master key");
            same(ctx, &m, |x, y| enc(x) == mb && enc(y) == mb, "master public key");
            let mb = [len(n), el(rng, n)].concat();
            let m = must!(ctx, <Clr as cosmian_abe_gpsw::core::gpsw::AbeScheme>::MasterPublicDelegationKey::try_from_bytes(&mb), "master key");
            same(ctx, &m, |x, y| enc(x) == mb && enc(y) == mb, "master delegation key");
            ctx.count("objects of more than 65535 elements", 5 * (n > 65535) as u64);
        }
    });
    ctx.phase("headers", 200, 3000, |ctx, rng| {
        let w = gen_world(rng, &SMALL);
        let a = must!(ctx, Auth::new(w), "setup");
        let f = gen_formula(rng, &a.w.m, 4);
        let key = must!(ctx, a.key(&f), "key");
        for _ in 0..4 {
            let l = gen_sat(rng, &a.w.m, &f);
            let meta = super::c10::gen_meta(rng);
            headers(ctx, &a, &key, &l, meta.as_ref());
        }
    });
    ctx.phase("span-programs", 200, 4000, |ctx, rng| {
        let n = rng.range(1, 24);
        let mut w = World::new(n as u32);
        w.add_axis("x", &(0..n).map(|i| format!("v{i}")).collect::<Vec<_>>(), false);
        let mut leaves = w.m.all();
        rng.shuffle(&mut leaves);
        let keep = rng.range(1, n);
        leaves.truncate(keep);
        let (bias, skew) = (rng.below(11), rng.below(4));
        let f = gen_tree(rng, &leaves, bias, skew);
        fn node(f: &F, add: u32) -> Node {
            match f {
                F::Attr((_, y)) => Node::Leaf((*y as u32).wrapping_add(add)),
                F::And(a, b) => node(a, add) & node(b, add),
                F::Or(a, b) => node(a, add) | node(b, add),
            }
        }
        let add = *rng.pick(&[0u32, 1, 250, 65_530, u32::MAX - 30]);
        let m = must!(ctx, node(&f, add).to_msp(), "span program");
        same(ctx, &m, eqd, "span program of integers");
        let s = MonotoneSpanProgram::<LScalar>::from(&m);
        same(ctx, &s, eqd, "span program of scalars");
        ctx.count("span programs", 2);
        ctx.eval(Some(&format!("msp {}", f.shape())));
    });
    ctx.phase("elements", 200, 3000, |ctx, rng| {
        let s = must!(ctx, g.gen_random_scalar(), "scalar");
        let edge = [0, 1, -1, 2, i32::MAX, i32::MIN, rng.u64() as i32];
        for i in edge {
            same(ctx, &LScalar::from(i), eqd, "scalar");
            same(ctx, &i, eqd, "i32");
            same(ctx, &(i as u32), eqd, "u32");
        }
        same(ctx, &(rng.u64() as i32), eqd, "i32");
        same(ctx, &(rng.u64() as u32), eqd, "u32");
        ctx.count("integers", 16);
        same(ctx, &s, eqd, "scalar");
        same(ctx, &g.g2_gen_exp(&s), eqd, "element of G1");
        same(ctx, &g.g3_gen_exp(&s), eqd, "element of G2");
        same(ctx, &g.gt_gen_exp(&s), eqd, "element of Gt");
        let msg = must!(ctx, g.gen_random_msg_in_gt(), "message");
        same(ctx, &msg, eqd, "element of Gt");
        for z in [LScalar::from(0), LScalar::from(1), LScalar::from(-1)] {
            same(ctx, &g.g2_gen_exp(&z), eqd, "element of G1");
            same(ctx, &g.g3_gen_exp(&z), eqd, "element of G2");
            same(ctx, &g.gt_gen_exp(&z), eqd, "element of Gt");
        }
        ctx.count("scalars and group elements", 20);
        vectors(ctx, rng, |r| r.u64() as u32, "vector of u32");
        vectors(ctx, rng, |r| r.u64() as i32, "vector of i32");
        vectors(ctx, rng, |r| LScalar::from(r.u64() as i32), "vector of scalars");
        let s2 = g.g2_gen_exp(&s);
        vectors(ctx, rng, |r| G1Affine::from(s2 * scalar(r)), "vector of G1");
        vectors(ctx, rng, |r| G2Affine::from(G2Affine::generator() * scalar(r)), "vector of G2");
        if rng.chance(1, 4) {
            vectors(ctx, rng, |r| -> Gt { random_gt(r) }, "vector of Gt");
        }
    });
}
