use super::*;
use crate::ffi;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    workers: 8,
    rule: "headers encrypted by the native function, the C function and the C cache, each decrypted by the three of them and by a key read back from bytes; metadata absent, empty, and of many sizes; blocks of every size of a range and at the maximum of several block types, native and C; distinct = (policy, formula, list, metadata sizes, path) or (block size, identifier size, number)",
    floors: &[
        ("headers at the same places", 80),
        ("headers encrypted", 200), ("headers decrypted", 800), ("refusals", 200), ("headers converted", 200),
        ("blocks native to native", 1000), ("blocks across native and C", 1000), ("blocks of the maximal size", 30),
        ("metadata with additional data only", 10), ("metadata with identifier only", 10), ("metadata absent", 10),
        ("headers for more than 1255 attributes", 6),
        ("C: headers exchanged", 60),
        ("Python: headers exchanged", 30),
        ("WebAssembly: headers exchanged", 15),
    ],
    assumptions: &[MODEL],
};

pub fn gen_meta(rng: &mut Rng) -> Option<hy::Meta> {
    let size = |rng: &mut Rng| match rng.below(10) {
        0 => 0,
        1 => 1,
        2 | 3 => rng.range(2, 40),
        4 => 16,
        5 => 255 + rng.below(3),
        6 => rng.range(40, 5000),
        7 => 65535 + rng.below(3),
        8 => rng.range(5000, 200_000),
        _ => rng.range(1, 100),
    };
    match rng.below(6) {
        0 => None,
        1 => {
            let n = size(rng);
            Some((rng.bytes(n), None))
        }
        2 => {
            let n = size(rng);
            Some((vec![], Some(rng.bytes(n))))
        }
        3 => {
            // parts that look like lengths or like nothing
            let c = *rng.pick(&[0u8, 0xFF, 1]);
            let (n, k) = (rng.range(0, 9), rng.range(0, 9));
            Some((vec![c; n], Some(vec![c; k])))
        }
        _ => {
            let (n, k) = (size(rng), size(rng));
            Some((rng.bytes(n), Some(rng.bytes(k))))
        }
    }
}

fn count_meta(ctx: &mut Ctx, m: &Option<hy::Meta>) {
    let k = match m {
        None => "metadata absent",
        Some((u, a)) => match (u.is_empty(), a.as_ref().map_or(true, Vec::is_empty)) {
            (true, true) => "metadata empty",
            (true, false) => "metadata with additional data only",
            (false, true) => "metadata with identifier only",
            _ => "metadata with both",
        },
    };
    ctx.count(k, 1);
}

fn short(m: &Option<hy::Meta>) -> String {
    match m {
        None => "absent".into(),
        Some((u, a)) => format!("{}+{:?}", u.len(), a.as_ref().map(Vec::len)),
    }
}

fn dump(m: &hy::Meta) -> serde_json::Value {
    let cut = |b: &[u8]| format!("{} bytes {}", b.len(), hex::encode(&b[..b.len().min(64)]));
    json!({"uid": cut(&m.0), "additional": m.1.as_ref().map(|a| cut(a))})
}

fn converted(ctx: &mut Ctx, key: &[u8], header: &[u8], meta: &hy::Meta) {
    // bytes and back, of both kinds of headers
    let e = hy::EncryptedHeader::<hy::Aes> { symmetric_key: hy::key(key).expect("key"), encrypted_header_bytes: header.to_vec() };
    let b = must!(ctx, e.try_into_bytes(), "conversion of an encrypted header");
    let e = must!(ctx, hy::EncryptedHeader::<hy::Aes>::try_from_bytes(&b), "conversion of an encrypted header from bytes");
    if hy::key_bytes(&e.symmetric_key) != key || e.encrypted_header_bytes != header {
        ctx.violation("an encrypted header comes back different from its bytes", json!({"bytes": hex::encode(&b)}));
    }
    let c = hy::ClearTextHeader::<hy::Aes> { symmetric_key: hy::key(key).expect("key"), meta_data: hy::metadata(meta) };
    let b = must!(ctx, c.try_into_bytes(), "conversion of a clear text header");
    let c = must!(ctx, hy::ClearTextHeader::<hy::Aes>::try_from_bytes(&b), "conversion of a clear text header from bytes");
    if hy::key_bytes(&c.symmetric_key) != key || c.meta_data.uid != meta.0 || c.meta_data.additional_data != meta.1 {
        ctx.violation("a clear text header comes back different from its bytes", json!({"metadata": dump(meta), "bytes": b.len()}));
    }
    ctx.count("headers converted", 2);
}

fn headers(ctx: &mut Ctx, rng: &mut Rng, a: &Auth, f: Option<&F>, rounds: std::ops::Range<u32>, least: usize) {
    let pj = a.w.policy.to_string();
    let (key, shape, v) = match f {
        Some(f) => (must!(ctx, a.key(f), "key"), f.shape(), a.w.m.snapshot(f)),
        None => (
            must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &abe_policy::AccessPolicy::All), "key"),
            "All".into(),
            a.w.m.snapshot_all(),
        ),
    };
    let (mb, kb) = (enc(&a.mpk), enc(&key));
    let eh = must!(ctx, ffi::enc_create(&pj, &mb), "encryption cache");
    let dh = must!(ctx, ffi::dec_create(&kb), "decryption cache");
    for round in rounds {
        let mut l = match f {
            Some(f) if round == 3 => gen_unsat(rng, &a.w.m, f),
            Some(f) => gen_sat(rng, &a.w.m, f),
            None => {
                let n = rng.range(1, 5);
                let all = a.w.m.all();
                (0..n).map(|_| *rng.pick(&all)).collect()
            }
        };
        if l.len() < least {
            // (those which do not help to satisfy the formula)
            let mut named = vec![];
            f.iter().for_each(|f| f.leaves(&mut named));
            let others: Vec<At> = a.w.m.all().into_iter().filter(|x| !l.contains(x) && !named.contains(x)).collect();
            l.extend(others.iter().take(least - l.len()));
            rng.shuffle(&mut l);
        }
        ctx.count("headers for more than 1255 attributes", (l.len() > 1255) as u64);
        let opens = v.eval(&a.w.m.currents(&l));
        let meta = gen_meta(rng);
        count_meta(ctx, &meta);
        let want = hy::expected(meta.as_ref());
        let attrs = a.w.m.attrs_of(&l);
        let aj = serde_json::to_string(&attrs).expect("attributes");
        let (u, ad) = (want.0.clone(), want.1.clone().unwrap_or_default());
        let path = if meta.is_none() { 0 } else { rng.below(3) };
        ctx.journal("encrypt a header");
        let (sk, h) = must!(
            ctx,
            match path {
                0 => hy::encrypt_header(&a.w.policy, &a.mpk, &attrs, meta.as_ref()).map_err(|e| e.to_string()),
                1 => ffi::enc_header(&pj, &mb, &aj, &u, &ad),
                _ => ffi::enc_cached(eh, &aj, &u, &ad),
            },
            "header encryption (path {path})"
        );
        ctx.count("headers encrypted", 1);
        if sk.len() != 32 {
            ctx.violation(format!("symmetric key of {} bytes", sk.len()), json!({}));
            return;
        }
        let key2 = must!(ctx, roundtrip(&key), "user key");
        for dpath in 0..4 {
            ctx.journal("decrypt a header");
            let flat = |m: hy::Meta| (m.0, m.1.unwrap_or_default());
            let r: Result<(Vec<u8>, (Vec<u8>, Vec<u8>)), String> = match dpath {
                0 => hy::decrypt_header(&key, &h).map(|(k, m)| (k, flat(m))).map_err(|e| e.to_string()),
                1 => hy::decrypt_header(&key2, &h).map(|(k, m)| (k, flat(m))).map_err(|e| e.to_string()),
                2 => ffi::dec_header(&h, &kb).map(|(k, u, a)| (k, (u, a))),
                _ => ffi::dec_cached(dh, &h).map(|(k, u, a)| (k, (u, a))),
            };
            let ok = match &r {
                Ok((k, m)) => opens && *k == sk && m.0 == want.0 && m.1 == ad,
                Err(_) => !opens,
            };
            ctx.count(if opens { "headers decrypted" } else { "refusals" }, 1);
            ctx.eval(Some(&format!("{} {shape} {l:?} {} {path}{dpath}", describe(&a.w), short(&meta))));
            if !ok {
                let what = match &r {
                    Ok((k, _)) if !opens => format!("a key that is not satisfied opens a header, with {} symmetric key", if *k == sk { "its" } else { "another" }),
                    Ok((k, _)) if *k != sk => "a header decrypts to another symmetric key".into(),
                    Ok(_) => "a header decrypts to other metadata".into(),
                    Err(e) => format!("a header is refused: {e}"),
                };
                ctx.violation(
                    format!("{what} (encryption path {path}, decryption path {dpath})"),
                    json!({"policy": describe(&a.w), "formula": shape, "list": format!("{l:?}"), "metadata": dump(&want),
                        "got": r.ok().map(|r| dump(&(r.1.0, Some(r.1.1)))), "key": hex::encode(&kb), "header": hex::encode(&h[..h.len().min(4000)])}),
                );
                return;
            }
        }
        // the native function tells an absent metadata from an empty one only by this
        if opens {
            if let Ok((_, m)) = hy::decrypt_header(&key, &h) {
                if m != want {
                    ctx.violation("a header decrypts to other metadata", json!({"metadata": dump(&want), "got": dump(&m)}));
                    return;
                }
            }
        }
        converted(ctx, &sk, &h, &want);
        // blocks with the key of the header
        let size = rng.range(1, 300);
        let data = rng.bytes(size);
        let n = rng.below(1000);
        blocks(ctx, &sk, &want.0, n as i64, &data);
        if ctx.violated() {
            return;
        }
    }
    ffi::enc_destroy(eh);
    ffi::dec_destroy(dh);
}

/// One block through the four pairs of native and C functions
fn blocks(ctx: &mut Ctx, key: &[u8], uid: &[u8], n: i64, data: &[u8]) {
    let nn = n as usize;
    let sig = format!("block {} {} {n}", data.len(), uid.len());
    let detail = || json!({"key": hex::encode(key), "uid": hex::encode(uid), "number": n, "size": data.len()});
    let fits = i32::try_from(n).is_ok();
    for (e, c) in [("native", false), ("C", true)] {
        if c && !fits {
            continue;
        }
        let b = if c { ffi::enc_block(key, uid, n as i32, data) } else { hy::enc_block(key, uid, nn, data) };
        let b = match b {
            Ok(b) => b,
            Err(err) => {
                ctx.violation(format!("{e} encryption of a block of {} bytes: {err}", data.len()), detail());
                return;
            }
        };
        for (d, dc) in [("native", false), ("C", true)] {
            if dc && !fits {
                continue;
            }
            let r = if dc { ffi::dec_block(key, uid, n as i32, &b) } else { hy::dec_block(key, uid, nn, &b) };
            match r {
                Ok(x) if x == data => {}
                Ok(x) => {
                    ctx.violation(format!("{e} to {d}: a block of {} bytes comes back as {} other bytes", data.len(), x.len()), detail());
                    return;
                }
                Err(err) => {
                    ctx.violation(format!("{e} to {d}: a block of {} bytes is refused: {err}", data.len()), detail());
                    return;
                }
            }
            ctx.count(if c || dc { "blocks across native and C" } else { "blocks native to native" }, 1);
            ctx.eval(Some(&sig));
        }
    }
}

fn bounded<const N: usize>(ctx: &mut Ctx, rng: &mut Rng) {
    let key = rng.bytes(32);
    let un = rng.below(40);
    let uid = rng.bytes(un);
    let mut sizes: Vec<usize> = if N <= 40 { (1..=N).collect() } else { (0..20).map(|_| rng.range(1, N)).collect() };
    sizes.extend([N, N.saturating_sub(1).max(1), 1]);
    for s in sizes {
        let data = rng.bytes(s);
        let n = rng.u64() as usize;
        let b = must!(ctx, hy::enc_block_n::<N>(&key, &uid, n, &data), "block of {s} bytes, {N} at most");
        let d = must!(ctx, hy::dec_block_n::<N>(&key, &uid, n, &b), "decryption of a block of {s} bytes, {N} at most");
        if d != data {
            ctx.violation(format!("a block of {s} bytes, {N} at most, comes back different"), json!({"key": hex::encode(&key)}));
            return;
        }
        ctx.count("blocks native to native", 1);
        if s == N {
            ctx.count("blocks of the maximal size", 1);
        }
        ctx.eval(Some(&format!("block {s}/{N} {}", uid.len())));
    }
}

fn run(ctx: &mut Ctx) {
    ctx.phase("headers", 160, 3000, |ctx, rng| {
        let p = profile(rng);
        let p = Profile { plain: rng.chance(1, 2), ..*p };
        let w = gen_world(rng, &p);
        let f = (!rng.chance(1, 8)).then(|| gen_formula(rng, &w.m, 8));
        ctx.sample(|| format!("{} formula {:?}", describe(&w), f.as_ref().map(F::shape)));
        let a = must!(ctx, Auth::new(w), "setup");
        headers(ctx, rng, &a, f.as_ref(), 0..4, 0);
    });
    ctx.phase("many-attributes", 4, 40, |ctx, rng| {
        // encapsulations of more than 65535 bytes
        let n = rng.range(1300, 1600);
        let w = flat(n);
        let values: Vec<u32> = w.m.all().iter().map(|x| w.m.current(*x)).collect();
        let a = wide_authority(rng, w, &values);
        let f = {
            let leaves: Vec<At> = (0..3).map(|i| (0, i * 400 + rng.below(400))).collect();
            gen_tree(rng, &leaves, 5, 0)
        };
        let least = rng.range(1258, n - 3);
        headers(ctx, rng, &a, Some(&f), 2..4, least);
    });
    ctx.phase("sizes", 64, 512, |ctx, rng| {
        // every size up to 64 × 32 (or 512 × 32), in slices
        let first = ctx.case() as usize * 32;
        let key = rng.bytes(32);
        for s in first..first + 32 {
            let data = rng.bytes(s + 1);
            let un = rng.below(33);
            let uid = rng.bytes(un);
            let n = match rng.below(6) {
                0 => 0,
                1 => i64::from(i32::MAX) - rng.below(2) as i64,
                2 => i64::from(i32::MIN) + rng.below(2) as i64,
                3 => rng.u64() as i64,
                _ => rng.below(100_000) as i64,
            };
            blocks(ctx, &key, &uid, n, &data);
            if ctx.violated() {
                return;
            }
        }
    });
    ctx.phase("large", 16, 100, |ctx, rng| {
        let key = rng.bytes(32);
        let un = rng.range(0, 3000);
        let uid = rng.bytes(un);
        let k = rng.range(12, 22);
        let s = (1usize << k) + rng.below(5) - 2;
        let data = rng.bytes(s);
        let n = rng.below(1 << 20) as i64;
        blocks(ctx, &key, &uid, n, &data);
    });
    ctx.phase("bounded", 32, 400, |ctx, rng| {
        bounded::<1>(ctx, rng);
        bounded::<2>(ctx, rng);
        bounded::<15>(ctx, rng);
        bounded::<16>(ctx, rng);
        bounded::<17>(ctx, rng);
        bounded::<255>(ctx, rng);
        bounded::<256>(ctx, rng);
        bounded::<4096>(ctx, rng);
        bounded::<65536>(ctx, rng);
        bounded::<100_000>(ctx, rng);
    });
    ctx.phase("resource", 24, 300, |ctx, rng| {
        // a file cut in blocks, decrypted in another order
        let key = rng.bytes(32);
        let uid = rng.bytes(16);
        let size = rng.range(1000, 20_000);
        let file = rng.bytes(size);
        let cut = rng.range(1, 700);
        let mut enc_blocks = vec![];
        for (n, c) in file.chunks(cut).enumerate() {
            let b = if rng.chance(1, 2) { hy::enc_block_n::<700>(&key, &uid, n, c) } else { ffi::enc_block(&key, &uid, n as i32, c) };
            enc_blocks.push((n, must!(ctx, b, "block {n}")));
        }
        rng.shuffle(&mut enc_blocks);
        let mut out: Vec<Vec<u8>> = vec![vec![]; enc_blocks.len()];
        for (n, b) in &enc_blocks {
            let d = if rng.chance(1, 2) { hy::dec_block_n::<700>(&key, &uid, *n, b) } else { ffi::dec_block(&key, &uid, *n as i32, b) };
            out[*n] = must!(ctx, d, "decryption of block {n}");
            ctx.count("blocks across native and C", 1);
        }
        if out.concat() != file {
            ctx.violation("a resource comes back different from its blocks", json!({"size": size, "block": cut}));
        }
        ctx.eval(Some(&format!("resource {size} {cut}")));
    });
    places::run(ctx, 8, |_| true, places::headers);
    interfaces::run(ctx, interfaces::What::Exchange, (24, 16, 8), interfaces::hybrid);
}
