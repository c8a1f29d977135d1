//! The same places in memory, holding one thing after the other: what a function
//! answers depends on what it is given, not on where that lies, nor on what lay
//! there before.
use super::*;
use crate::ffi::api;
use crate::rng::Rng;
use serde_json::json;
use std::os::raw::{c_char, c_int};

const ATTRS: usize = 5;

struct Stage {
    a: Vec<Auth>,
    /// (authority, attributes of the key, which all are required, its bytes)
    keys: Vec<(usize, [At; 2], Uk, Vec<u8>)>,
}

/// Two authorities of one policy, keys for two attributes of each
fn stage(rng: &mut Rng) -> Result<Stage, String> {
    let a = vec![Auth::new(flat(ATTRS))?, Auth::new(flat(ATTRS))?];
    let all = a[0].w.m.all();
    let mut keys = vec![];
    for i in 0..2 {
        for _ in 0..3 {
            let x = rng.below(ATTRS);
            let pair = [all[x], all[(x + 1 + rng.below(ATTRS - 1)) % ATTRS]];
            let k = a[i].key(&F::and(F::Attr(pair[0]), F::Attr(pair[1])))?;
            let b = enc(&k);
            keys.push((i, pair, k, b));
        }
    }
    Ok(Stage { a, keys })
}

/// Which thing lies in each of the slots: one of them changes from a step to the next
fn step(rng: &mut Rng, at: &mut [usize], of: &[usize]) {
    if rng.chance(9, 10) {
        let i = rng.below(at.len());
        let by = rng.below(of[i]);
        at[i] = by;
    }
}

/// Puts a value where the former one was, freed first so that what it holds may lie
/// where the former did too
fn put<T>(slot: &mut Option<T>, make: impl FnOnce() -> T) {
    *slot = None;
    *slot = Some(make());
}

fn held(k: &(usize, [At; 2], Uk, Vec<u8>), auth: usize, l: &[At]) -> bool {
    k.0 == auth && k.1.iter().all(|x| l.contains(x))
}
fn lists(rng: &mut Rng, s: &Stage) -> Vec<Vec<At>> {
    // of one length: the cipher texts are of one size
    let mut l: Vec<Vec<At>> = s.keys.iter().map(|k| k.1.to_vec()).collect();
    let all = s.a[0].w.m.all();
    let x = rng.below(ATTRS - 1);
    l.push(vec![all[x], all[x + 1]]);
    l
}

/// Keys and cipher texts, messages and keys made from policies and master keys
pub fn engine(ctx: &mut Ctx, rng: &mut Rng) {
    let s = must!(ctx, stage(rng), "setup");
    let lists = lists(rng, &s);
    let mut texts = vec![];
    for i in 0..2 {
        for l in &lists {
            let m = must!(ctx, s.a[i].message(), "message");
            texts.push((i, l.clone(), enc(&must!(ctx, s.a[i].encrypt(l, &m), "encryption")), m));
        }
    }
    let eng = Eng::new();
    let (mut key, mut text): (Option<Uk>, Option<Ct>) = (None, None);
    let mut at = [0, 0];
    for _ in 0..40 {
        step(rng, &mut at, &[s.keys.len(), texts.len()]);
        if rng.chance(1, 3) {
            // the cipher text that key is for
            at[1] = s.keys[at[0]].0 * lists.len() + at[0];
        }
        let (k, t) = (&s.keys[at[0]], &texts[at[1]]);
        put(&mut key, || k.2.clone());
        put(&mut text, || dec(&t.2).expect("cipher text"));
        let got = eng.decrypt(text.as_ref().expect("text"), key.as_ref().expect("key")).ok().flatten();
        let named = k.1.iter().all(|x| t.1.contains(x));
        if held(k, t.0, &t.1) {
            if got.as_ref() != Some(&t.3) {
                ctx.violation("a satisfied key does not decrypt where another one was", json!({"key": format!("{:?}", k.1), "attributes": format!("{:?}", t.1)}));
                return;
            }
            ctx.count("decryptions at the same places", 1);
        } else {
            if got.as_ref() == Some(&t.3) || (!named && got.is_some()) {
                ctx.violation("a key that is not satisfied decrypts where one that is was", json!({"key": format!("{:?}", k.1), "attributes": format!("{:?}", t.1), "authorities": [k.0, t.0]}));
                return;
            }
            ctx.count("refusals at the same places", 1);
        }
    }
    // policies, one with other values for the same names, and master keys
    let worlds: Vec<World> = (0..3)
        .map(|i| {
            let mut w = World::new(3 * ATTRS as u32);
            let all: Vec<usize> = (0..ATTRS).map(|j| (j * (i + 1)) % ATTRS).collect();
            w.add_axis("flat", &all.iter().map(|j| format!("v{j}")).collect::<Vec<_>>(), false);
            w
        })
        .collect();
    let mut auths = vec![];
    for _ in 0..2 {
        auths.push(must!(ctx, eng.generate_master_key(&worlds[0].policy), "master keys"));
    }
    let (bsk, bpk): (Vec<Vec<u8>>, Vec<Vec<u8>>) = auths.iter().map(|a| (enc(&a.0), enc(&a.1))).unzip();
    let (mut pol, mut msk, mut mpk): (Option<abe_policy::Policy>, Option<Msk>, Option<Mpk>) = (None, None, None);
    let mut at = [0, 0, 0, 0];
    for _ in 0..12 {
        step(rng, &mut at, &[3, 2, 2, ATTRS]);
        let [p, sk, pk, x] = at;
        put(&mut pol, || worlds[p].policy.clone());
        put(&mut msk, || dec(&bsk[sk]).expect("private key"));
        put(&mut mpk, || dec(&bpk[pk]).expect("public key"));
        let (pol, msk, mpk) = (pol.as_ref().expect("policy"), msk.as_ref().expect("key"), mpk.as_ref().expect("key"));
        // the name there, found by it in the policy
        let name = format!("v{x}");
        let a = abe_policy::Attribute::new("flat", &name);
        let m = must!(ctx, eng.random_message(), "message");
        let ct = must!(ctx, eng.encrypt(pol, mpk, &[a.clone()], &m), "encryption");
        let uk = must!(ctx, eng.generate_user_key(pol, msk, &abe_policy::AccessPolicy::from(a)), "key");
        let value = worlds[p].m.axes[0].attrs.iter().position(|n| *n == name).expect("named") as u32 + 1;
        let (bc, bu) = (enc(&ct), enc(&uk));
        let read = |b: &[u8], i: usize| u32::from_be_bytes(b[i..i + 4].try_into().expect("four"));
        if read(&bc, 4) != value || read(&bu, 4 + 96 + 8) != value {
            ctx.violation("a satisfied key or its cipher text is for what another policy said, which was there before", json!({"value": value}));
            return;
        }
        let got = eng.decrypt(&ct, &uk).ok().flatten();
        if sk == pk && got.as_ref() != Some(&m) {
            ctx.violation("a satisfied key does not decrypt where those of another authority were", json!({}));
            return;
        }
        if sk != pk && got.as_ref() == Some(&m) {
            ctx.violation("a key that is not satisfied, that of another authority, decrypts", json!({}));
            return;
        }
        ctx.count("generations at the same places", 1);
    }
    ctx.eval(Some(&format!("places {:?}", s.keys.iter().map(|k| k.1).collect::<Vec<_>>())));
}

/// Headers, through the native functions and through those of the C interface
pub fn headers(ctx: &mut Ctx, rng: &mut Rng) {
    let s = must!(ctx, stage(rng), "setup");
    let lists = lists(rng, &s);
    let mut all = vec![];
    for i in 0..2 {
        for (j, l) in lists.iter().enumerate() {
            let meta: hy::Meta = (format!("id {i}{j:02}").into_bytes(), Some(vec![j as u8; 6]));
            let h = must!(ctx, hy::encrypt_header(&s.a[i].w.policy, &s.a[i].mpk, &s.a[i].w.m.attrs_of(l), Some(&meta)), "header");
            all.push((i, l.clone(), h.0, h.1, meta));
        }
    }
    let (size, ksize) = (all[0].3.len(), s.keys[0].3.len());
    if all.iter().any(|h| h.3.len() != size) || s.keys.iter().any(|k| k.3.len() != ksize) {
        ctx.violation("headers or keys alike have other sizes", json!({}));
        return;
    }
    let mut key: Option<Uk> = None;
    let (mut bytes, mut kbytes) = (vec![0u8; size], vec![0u8; ksize]);
    let mut at = [0, 0];
    let mut handle: Option<c_int> = None;
    for _ in 0..40 {
        step(rng, &mut at, &[s.keys.len(), all.len()]);
        let (k, h) = (&s.keys[at[0]], &all[at[1]]);
        put(&mut key, || k.2.clone());
        bytes.copy_from_slice(&h.3);
        kbytes.copy_from_slice(&k.3);
        let way = rng.below(3);
        let got = match way {
            0 => hy::decrypt_header(key.as_ref().expect("key"), &bytes).ok(),
            _ => {
                // the outputs lie where the former ones did too
                let (mut o, mut n) = ([[0u8; 64]; 3], [64 as c_int; 3]);
                let [a, b, c] = &mut o;
                let [x, y, z] = &mut n;
                let rc = unsafe {
                    if way == 1 {
                        (api().h_aes_decrypt_header)(a.as_mut_ptr().cast(), x, b.as_mut_ptr().cast(), y, c.as_mut_ptr().cast(), z,
                            bytes.as_ptr().cast(), size as c_int, kbytes.as_ptr().cast(), ksize as c_int)
                    } else {
                        // a cache made from the same place as the one just destroyed
                        if let Some(h) = handle.take() {
                            (api().h_aes_destroy_decryption_cache)(h);
                        }
                        let mut h = -1;
                        let made = (api().h_aes_create_decryption_cache)(&mut h, kbytes.as_ptr().cast::<c_char>(), ksize as c_int);
                        if made != 0 {
                            made
                        } else {
                            handle = Some(h);
                            (api().h_aes_decrypt_header_using_cache)(a.as_mut_ptr().cast(), x, b.as_mut_ptr().cast(), y, c.as_mut_ptr().cast(), z,
                                bytes.as_ptr().cast(), size as c_int, h)
                        }
                    }
                };
                let cut = |i: usize| o[i][..n[i].clamp(0, 64) as usize].to_vec();
                (rc == 0).then(|| (cut(0), (cut(1), Some(cut(2)))))
            }
        };
        let want = held(k, h.0, &h.1).then(|| (h.2.clone(), h.4.clone()));
        if got != want {
            let through = ["native", "C", "C cache"][way];
            ctx.violation(
                if want.is_some() { "a header does not decrypt to what it holds where another one was" } else { "a header decrypts with a key that is not satisfied, where one that is was" },
                json!({"through": through, "key": format!("{:?}", k.1), "attributes": format!("{:?}", h.1)}),
            );
            return;
        }
        ctx.count("headers at the same places", 1);
    }
    if let Some(h) = handle {
        unsafe { (api().h_aes_destroy_decryption_cache)(h) };
    }
    ctx.eval(Some(&format!("places of headers {:?}", s.keys.iter().map(|k| k.1).collect::<Vec<_>>())));
}

/// Blocks, through the native functions and through those of the C interface
pub fn blocks(ctx: &mut Ctx, rng: &mut Rng) {
    let keys: Vec<Vec<u8>> = (0..3).map(|_| rng.bytes(32)).collect();
    let uids: Vec<Vec<u8>> = (0..3).map(|_| rng.bytes(12)).collect();
    let numbers = [0usize, 1, 1 << 20];
    let size = rng.range(1, 200);
    // (key, identifier, number, block, clear text)
    let mut all = vec![];
    for _ in 0..6 {
        let w = (rng.below(3), rng.below(3), rng.below(3));
        let d = rng.bytes(size);
        let b = must!(ctx, hy::enc_block(&keys[w.0], &uids[w.1], numbers[w.2], &d), "block");
        all.push((w, b, d));
    }
    // copies of the first one, altered
    for _ in 0..2 {
        let mut x = all[0].1.clone();
        let i = rng.below(x.len());
        x[i] ^= 1 << rng.below(8);
        all.push(((9, 9, 9), x, vec![]));
    }
    let mut slot: Option<hy::Key> = None;
    let (mut kb, mut ub, mut bb) = ([0u8; 32], vec![0u8; 12], vec![0u8; all[0].1.len()]);
    let first = all[0].0;
    let mut at = [0, first.0, first.1, first.2];
    let mut opened = 0;
    for i in 0..120 {
        if rng.chance(1, 2) {
            // everything as when one was made
            let b = rng.below(6);
            let w = all[b].0;
            at = [b, w.0, w.1, w.2];
        } else {
            step(rng, &mut at, &[all.len(), 3, 3, 3]);
        }
        let (w, b, d) = &all[at[0]];
        put(&mut slot, || hy::key(&keys[at[1]]).expect("key"));
        kb.copy_from_slice(&keys[at[1]]);
        ub.copy_from_slice(&uids[at[2]]);
        bb.copy_from_slice(b);
        let number = numbers[at[3]];
        let way = rng.below(2);
        let got = if way == 0 {
            hy::decrypt_hybrid_block::<Sch, hy::Aes, 4096>(slot.as_ref().expect("key"), &ub, number, &bb).ok()
        } else {
            let (mut o, mut n) = ([0u8; 512], 512 as c_int);
            let rc = unsafe {
                (api().h_aes_decrypt_block)(o.as_mut_ptr().cast(), &mut n, kb.as_ptr().cast(), 32, ub.as_ptr().cast(), 12,
                    number as c_int, bb.as_ptr().cast(), bb.len() as c_int)
            };
            (rc == 0).then(|| o[..n.clamp(0, 512) as usize].to_vec())
        };
        let want = (*w == (at[1], at[2], at[3])).then(|| d.clone());
        if got != want {
            let through = ["native", "C"][way];
            ctx.violation(
                if want.is_some() { "a block does not decrypt to what it holds where another one was" } else { "a block accepts another key, identifier or number, or a modification, where the right one was" },
                json!({"step": i, "through": through, "block": at[0], "made with": format!("{w:?}"), "given": format!("{:?}", &at[1..])}),
            );
            return;
        }
        opened += want.is_some() as u64;
        ctx.count("blocks at the same places", 1);
    }
    ctx.count("blocks opened at the same places", opened);
    ctx.eval(Some(&format!("places of blocks {size} {opened}")));
}

/// A phase of one of them, of which only some violations matter
pub fn run(ctx: &mut Ctx, n: u64, keep: fn(&str) -> bool, f: fn(&mut Ctx, &mut Rng)) {
    ctx.keep = Some(keep);
    ctx.phase("same-places", n, 30 * n, f);
    ctx.keep = None;
}
