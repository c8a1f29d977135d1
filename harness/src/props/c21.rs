use super::*;
use crate::ffi;
use crate::reference as r;
use cosmian_abe_gpsw::core::gpsw::{AbeScheme, AsBytes};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::symmetric_encryption_overhead;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    workers: 8,
    rule: "cipher texts for every number of attributes up to 140 and sampled ones up to 600, and a few of thousands; the announced length for any number of attributes up to 2^30; blocks of every clear size up to 600 and around powers of two up to 1 MB (thorough 16 MB), for several maximal sizes, with and without identifiers; headers with every kind of metadata, parsed by an independent implementation; distinct = (kind, number of attributes or size)",
    floors: &[
        ("cipher text sizes", 150),
        ("block sizes", 600),
        ("headers", 100),
        ("lists with repetitions", 100),
        ("encapsulations", 100),
        ("announced sizes of objects", 300),
        ("announced lengths", 50_000),
        ("cipher texts of thousands of attributes", 2),
        ("C: headers exchanged", 60),
        ("Python: complete encryptions exchanged", 60),
        ("WebAssembly: headers exchanged", 15),
    ],
    assumptions: &[REF],
};

fn len<T: AsBytes>(ctx: &mut Ctx, t: &T, what: &str) {
    let n = enc(t).len();
    if t.len_bytes() != n {
        ctx.violation(format!("{what}: {} bytes announced, {n} bytes written", t.len_bytes()), json!({}));
    }
    ctx.count("announced sizes of objects", 1);
}

fn flat(n: usize) -> World {
    let mut w = World::new(n as u32);
    w.add_axis("x", &(0..n).map(|i| i.to_string()).collect::<Vec<_>>(), false);
    w
}

fn ciphertexts(ctx: &mut Ctx, rng: &mut Rng, a: &Auth, n: usize) {
    let mut l = a.w.m.all();
    rng.shuffle(&mut l);
    l.truncate(n);
    let m = must!(ctx, a.message(), "message");
    let ct = must!(ctx, a.encrypt(&l, &m), "encrypt for {n}");
    let written = enc(&ct).len();
    let announced = <Sch as AbeScheme>::ciphertext_len(n);
    if announced != written {
        ctx.violation(format!("{n} attributes: {announced} bytes announced, {written} bytes written"), json!({}));
    }
    len(ctx, &ct, "cipher text");
    // the same through the generation of symmetric keys
    let (k, e) = must!(ctx, a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&l), 32), "symmetric key");
    if e.len() != announced || k.len() != 32 {
        ctx.violation(format!("{n} attributes: {announced} bytes announced, encapsulation of {}", e.len()), json!({}));
    }
    ctx.count("cipher text sizes", 1);
    ctx.eval(Some(&format!("ciphertext {n}")));
    if n > 64 {
        return;
    }
    // some of them named again, next to the first time or elsewhere
    for together in [true, false] {
        for _ in 0..rng.range(1, 3) {
            let i = rng.below(l.len());
            let to = if together { i } else { rng.below(l.len() + 1) };
            let x = l[i];
            l.insert(to, x);
        }
        let announced = <Sch as AbeScheme>::ciphertext_len(l.len());
        let ct = must!(ctx, a.encrypt(&l, &m), "encrypt for {l:?}");
        let (_, h) = must!(ctx, hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&l), None), "header");
        let (written, held) = (enc(&ct).len(), h.len() - 4);
        if written != announced || held != announced {
            ctx.violation(
                format!("{} attributes, some named several times: {announced} bytes announced, {written} written, {held} in a header", l.len()),
                json!({"attributes": format!("{l:?}")}),
            );
        }
        len(ctx, &ct, "cipher text");
        ctx.count("lists with repetitions", 1);
    }
}

fn header(ctx: &mut Ctx, rng: &mut Rng, a: &Auth) {
    let mut l = a.w.m.all();
    rng.shuffle(&mut l);
    let n = rng.range(1, l.len());
    l.truncate(n);
    let meta: Option<hy::Meta> = match rng.below(6) {
        0 => None,
        1 => Some((vec![], None)),
        2 => Some((rng.bytes(16), None)),
        3 => {
            let n = rng.range(1, 300);
            Some((vec![], Some(rng.bytes(n))))
        }
        4 => {
            let n = *rng.pick(&[1, 255, 256, 4095, 4096, 65535, 65536, 70000]);
            Some((rng.bytes(32), Some(rng.bytes(n))))
        }
        _ => {
            let (n, m) = (rng.range(0, 40), rng.range(0, 40));
            Some((rng.bytes(n), Some(rng.bytes(m))))
        }
    };
    let (key, h) = must!(
        ctx,
        hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&l), meta.as_ref()),
        "header"
    );
    let d = || json!({"attributes": n, "metadata": meta.as_ref().map(|m| (m.0.len(), m.1.as_ref().map(Vec::len))), "header": h.len()});
    let ct_len = <Sch as AbeScheme>::ciphertext_len(n);
    let announced = ffi::header_size(&h);
    if announced < 0 || announced as usize != ct_len {
        ctx.violation(format!("the header announces an encapsulation of {announced} bytes instead of {ct_len}"), d());
        return;
    }
    let offset = 4 + ct_len;
    if h.len() < offset || r::RCt::parse(&h[4..offset]).is_none_or(|c| c.gamma.len() != n) {
        ctx.violation("the announced encapsulation is not a cipher text for the attributes", d());
        return;
    }
    match &meta {
        None => {
            if h.len() != offset {
                ctx.violation("bytes follow the encapsulation of a header without metadata", d());
            }
        }
        Some(m) => {
            // nonce, size, encrypted metadata and nothing else
            let clear = r::meta_bytes(&m.0, m.1.as_deref());
            let body = clear.len() + 16;
            let ok = h.len() == offset + 12 + 4 + body
                && h[offset + 12..offset + 16] == (body as u32).to_be_bytes()
                && r::aes_dec(&key, &h[offset..offset + 12], &h[offset + 16..], &[]).as_deref() == Some(&clear[..]);
            if !ok {
                ctx.violation("the encrypted metadata is not where and as long as announced", d());
            }
        }
    }
    ctx.count("headers", 1);
    ctx.eval(Some(&format!("header {n} {:?}", meta.as_ref().map(|m| (m.0.len(), m.1.as_ref().map(Vec::len))))));
    // encapsulations: length of the key, key, header or metadata
    let e = hy::EncryptedHeader::<hy::Aes> {
        symmetric_key: hy::key(&key).expect("key"),
        encrypted_header_bytes: h.clone(),
    };
    let b = must!(ctx, e.try_into_bytes(), "bytes of an encrypted header");
    if b.len() != 36 + h.len() || b[..4] != 32u32.to_be_bytes() || b[4..36] != key[..] || b[36..] != h[..] {
        ctx.violation("the parts of an encrypted header are not where announced", d());
    }
    let f = F::Attr(l[0]);
    let uk = must!(ctx, a.key(&f), "key");
    let c = must!(ctx, hy::decrypt_hybrid_header::<Sch, hy::Aes>(&uk, &h), "header decryption");
    let b = must!(ctx, c.try_into_bytes(), "bytes of a clear text header");
    let m = hy::expected(meta.as_ref());
    if b.len() < 36 || b[..4] != 32u32.to_be_bytes() || b[4..36] != key[..] || b[36..] != r::meta_bytes(&m.0, m.1.as_deref())[..] {
        ctx.violation("the parts of a clear text header are not where announced", d());
    }
    ctx.count("encapsulations", 2);
}

fn block<const N: usize>(ctx: &mut Ctx, rng: &mut Rng, size: usize) {
    let overhead = symmetric_encryption_overhead::<hy::Aes, N>();
    let c = ffi::overhead();
    if c < 0 || c as usize != overhead {
        ctx.violation(format!("overheads of {overhead} and {c} announced"), json!({"max": N}));
        return;
    }
    let (key, data) = (rng.bytes(32), rng.bytes(size));
    let n = *rng.pick(&[0usize, 0, 1, 16, 32, 100]);
    let uid = rng.bytes(n);
    let number = *rng.pick(&[0usize, 1, 255, 256, 65536, u32::MAX as usize]);
    let b = must!(ctx, hy::enc_block_n::<N>(&key, &uid, number, &data), "block of {size} bytes");
    if b.len() != size + overhead {
        ctx.violation(
            format!("a block of {size} bytes gives {} bytes, overhead of {overhead} announced", b.len()),
            json!({"max": N, "uid": n}),
        );
    }
    let d = must!(ctx, hy::dec_block_n::<N>(&key, &uid, number, &b), "decryption of a block of {size} bytes");
    if d.len() + overhead != b.len() || d != data {
        ctx.violation(format!("a block of {size} bytes comes back with {}", d.len()), json!({"max": N}));
    }
    ctx.count("block sizes", 1);
    ctx.eval(Some(&format!("block {N} {size}")));
}

fn run(ctx: &mut Ctx) {
    ctx.phase("cipher texts", 8, 8, |ctx, rng| {
        let a = must!(ctx, Auth::new(flat(140)), "setup");
        let base = ctx.case() as usize;
        for n in (1..=140usize).filter(|n| n % 8 == base) {
            ciphertexts(ctx, rng, &a, n);
        }
        if base == 0 {
            len(ctx, &a.msk, "master private key");
            len(ctx, &a.mpk, "master public key");
            len(ctx, &a.mdk, "delegation key");
        }
    });
    ctx.phase("large cipher texts", 4, 8, |ctx, rng| {
        let a = must!(ctx, Auth::new(flat(600)), "setup");
        for n in [255, 256, 257, 511, 512, 599, 600] {
            if n as u64 % 4 == ctx.case() % 4 {
                ciphertexts(ctx, rng, &a, n);
            }
        }
        for _ in 0..3 {
            let n = rng.range(141, 600);
            ciphertexts(ctx, rng, &a, n);
        }
    });
    ctx.phase("announced", 64, 640, |ctx, rng| {
        // the lengths of the format, whatever the number of attributes
        for i in 0..2000u32 {
            let n = match i % 4 {
                0 => rng.below(3000),
                1 => (1usize << rng.range(1, 30)) + rng.below(3) - 1,
                2 => ((1usize << rng.range(8, 30)) / *rng.pick(&[4usize, 48, 52])) + rng.below(3),
                _ => rng.below(1 << 30),
            };
            let announced = <Sch as AbeScheme>::ciphertext_len(n);
            if announced as u128 != 4 + 4 * n as u128 + 4 + 48 * n as u128 + 288 {
                ctx.violation(format!("{n} attributes: {announced} bytes announced"), json!({}));
                return;
            }
            ctx.count("announced lengths", 1);
        }
        ctx.eval(Some(&format!("announced {}", ctx.case())));
    });
    ctx.phase("thousands", 2, 12, |ctx, rng| {
        // real cipher texts of thousands of attributes
        let n = match ctx.case() % 4 {
            0 => rng.range(1366, 1500),
            1 => rng.range(5462, 5600),
            2 => rng.range(16385, 17000),
            _ => rng.range(1000, 10000),
        };
        let w = flat(n);
        let all: Vec<u32> = w.m.all().iter().map(|x| w.m.current(*x)).collect();
        let a = wide_authority(rng, w, &all[..3]);
        ciphertexts(ctx, rng, &a, n);
        // a header for them all
        let (_, h) = must!(ctx, hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&a.w.m.all()), None), "header");
        let announced = ffi::header_size(&h);
        if announced < 0 || announced as usize + 4 != h.len() || announced as usize != <Sch as AbeScheme>::ciphertext_len(n) {
            ctx.violation(format!("a header for {n} attributes announces {announced} bytes, it has {}", h.len()), json!({}));
        }
        ctx.count("cipher texts of thousands of attributes", 1);
    });
    ctx.phase("objects", 60, 1500, |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let a = must!(ctx, Auth::new(w), "setup");
        len(ctx, &a.msk, "master private key");
        len(ctx, &a.mpk, "master public key");
        len(ctx, &a.mdk, "delegation key");
        let f = gen_formula(rng, &a.w.m, 10);
        let k = must!(ctx, a.key(&f), "key");
        len(ctx, &k, "user key");
        let all = must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &abe_policy::AccessPolicy::All), "key for all");
        len(ctx, &all, "user key");
        let d = must!(ctx, a.eng.delegate_user_key(&a.w.policy, &a.mdk, &all, &a.w.m.access(&f)), "delegation");
        len(ctx, &d, "delegated key");
        let m = must!(ctx, a.message(), "message");
        len(ctx, &m, "message");
        // lists of several axes
        let mut l = gen_sat(rng, &a.w.m, &f);
        l.truncate(rng.range(1, l.len()));
        let ct = must!(ctx, a.encrypt(&l, &m), "encrypt");
        len(ctx, &ct, "cipher text");
        let distinct = r::RCt::parse(&enc(&ct)).map(|c| c.gamma.len());
        if distinct.map(<Sch as AbeScheme>::ciphertext_len) != Some(enc(&ct).len()) {
            ctx.violation("the announced length is not that of a cipher text", json!({"attributes": distinct}));
        }
        ctx.sample(|| format!("{} {}", describe(&a.w), f.shape()));
        ctx.eval(Some(&format!("{} {}", describe(&a.w), f.shape())));
        for _ in 0..4 {
            header(ctx, rng, &a);
        }
    });
    ctx.phase("blocks", 8, 8, |ctx, rng| {
        for s in 1..=600usize {
            if s as u64 % 8 == ctx.case() {
                block::<{ hy::MAX }>(ctx, rng, s);
                block::<600>(ctx, rng, s);
            }
        }
        let top = ctx.n(20, 24);
        for b in 9..=top {
            let p = 1usize << b;
            for s in [p - 1, p, p + 1] {
                if b % 8 == ctx.case() {
                    block::<{ hy::MAX }>(ctx, rng, s);
                    if s <= 1 << 16 {
                        block::<{ 1 << 16 }>(ctx, rng, s);
                    }
                }
            }
        }
        block::<1>(ctx, rng, 1);
        block::<16>(ctx, rng, 16);
        block::<4096>(ctx, rng, 4096);
        // through the C interface, in buffers of exactly the announced size
        for s in [1usize, 15, 16, 17, 1000] {
            let (key, data) = (rng.bytes(32), rng.bytes(s));
            let (uid, n) = (rng.bytes(16), 7);
            let b = must!(ctx, ffi::enc_block(&key, &uid, n, &data), "C block of {s} bytes");
            if b.len() as i64 - s as i64 != i64::from(ffi::overhead()) {
                ctx.violation(format!("a C block of {s} bytes gives {} bytes", b.len()), json!({}));
            }
            ctx.count("block sizes", 1);
        }
    });
    interfaces::run(ctx, interfaces::What::Exchange, (24, 32, 8), interfaces::announced);
}
