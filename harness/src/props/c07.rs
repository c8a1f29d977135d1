use super::*;
use crate::alloc;
use crate::ffi;
use crate::objects::*;
use crate::reference::*;
use abe_policy::AccessPolicy;
use cosmian_abe_gpsw::core::gpsw::{AbeScheme, AsBytes};
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    workers: 8,
    rule: "structure-aware corruptions (truncations, extensions, counts, flipped bits, replaced elements, spliced objects) of serialized objects of all kinds, plus short and regular byte strings, given to every parser; what is accepted is used with the valid objects in every operation; well-formed objects of different origins used together; hostile headers, metadata and blocks; panics, signals, stalls and memory watched; the same over transparent groups in larger numbers; distinct = (kind, corruption, outcome)",
    floors: &[
        ("inputs parsed", 20000), ("inputs accepted", 1000), ("operations on accepted objects", 1500),
        ("hostile headers", 500), ("hostile blocks", 500), ("operations on foreign objects", 500),
        ("transparent: inputs accepted", 10000), ("transparent: operations on foreign objects", 10000),
        ("calls of the C functions", 300), ("hostile authenticated metadata", 100),
        ("Python: exceptions compared", 500),
        ("WebAssembly: exceptions compared", 150),
    ],
    assumptions: &["memory is that requested from the allocator by the process during the call; proportional means at most 4 KiB per byte of input plus 4 MiB (a byte of key takes about 250 bytes once prepared for pairings)"],
};

const SPECIAL: [u32; 18] = [
    0, 1, 2, 3, 7, 255, 256, 65_535, 65_536, 0x00ff_ffff, 0x0100_0000, 0x0aaa_aaab, 0x3fff_ffff, 0x4000_0000,
    0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff,
];

/// runs one call on hostile inputs, watching panics and memory
fn watch<T>(ctx: &mut Ctx, what: &str, inputs: &[&[u8]], extra: usize, f: impl FnOnce() -> T) -> Option<T> {
    let size: usize = inputs.iter().map(|b| b.len()).sum();
    let before = ctx.violations.len();
    let start = alloc::level();
    alloc::reset();
    let r = ctx.guard(what, f);
    let (largest, peak) = alloc::stats(start);
    let limit = (4 << 20) + size * 4096 + extra;
    if peak > limit || largest > limit {
        ctx.violation(
            format!("{what}: {peak} bytes of memory (largest request {largest}) for {size} bytes of input"),
            json!({}),
        );
    }
    if ctx.violations.len() > before {
        if let Some(v) = ctx.violations.last_mut() {
            v["detail"] = json!({"inputs": inputs.iter().map(hex::encode).collect::<Vec<_>>()});
        }
    }
    ctx.evals += 1;
    r
}

/// a corruption of one object: its name and the bytes
pub fn corrupt<S: Scheme>(rng: &mut Rng, k: Kind, b: &[u8], others: &[(Kind, Vec<u8>)]) -> (String, Vec<u8>) {
    let lay = layout_in::<S>(k, b);
    let mut v = b.to_vec();
    let at = |rng: &mut Rng| if b.is_empty() { 0 } else { rng.below(b.len()) };
    match rng.below(14) {
        0 => {
            let n = at(rng);
            v.truncate(n);
            ("truncated".into(), v)
        }
        1 => {
            // cut next to a boundary of elements
            let (p, e) = *rng.pick(&lay);
            let d = rng.below(3);
            let n = (p + if rng.chance(1, 2) { e.size() } else { 0 } + d).saturating_sub(1).min(b.len());
            v.truncate(n);
            ("cut at a boundary".into(), v)
        }
        2 => {
            let n = rng.range(1, 100);
            v.extend(rng.bytes(n));
            ("extended".into(), v)
        }
        3 | 4 => {
            let c: Vec<_> = lay.iter().filter(|x| x.1 == El::Count).collect();
            if c.is_empty() {
                return ("as is".into(), v);
            }
            let p = rng.pick(&c).0;
            let old = u32::from_be_bytes(b[p..p + 4].try_into().unwrap());
            let new = match rng.below(4) {
                0 => old.wrapping_add(1),
                1 => old.wrapping_sub(1),
                _ => *rng.pick(&SPECIAL),
            };
            v[p..p + 4].copy_from_slice(&new.to_be_bytes());
            ("count changed".into(), v)
        }
        5 => {
            // all counts
            let n = *rng.pick(&SPECIAL);
            for (p, e) in &lay {
                if *e == El::Count {
                    v[*p..*p + 4].copy_from_slice(&n.to_be_bytes());
                }
            }
            ("all counts changed".into(), v)
        }
        6 => {
            for _ in 0..rng.range(1, 3) {
                let p = at(rng);
                v[p] ^= 1 << rng.below(8);
            }
            ("bits flipped".into(), v)
        }
        7 => {
            let p = at(rng);
            let n = rng.range(1, 64).min(b.len() - p);
            let c = *rng.pick(&[0u8, 0xff, 0x80, 0xc0]);
            v[p..p + n].fill(c);
            ("region filled".into(), v)
        }
        8 => {
            // an integer or attribute
            let c: Vec<_> = lay.iter().filter(|x| x.1 == El::Int).collect();
            if c.is_empty() {
                return ("as is".into(), v);
            }
            for _ in 0..rng.range(1, 3) {
                let p = rng.pick(&c).0;
                let x = if rng.chance(1, 3) { rng.below(12) as u32 } else { *rng.pick(&SPECIAL) };
                v[p..p + 4].copy_from_slice(&x.to_be_bytes());
            }
            ("integer changed".into(), v)
        }
        9 => {
            // an element by another of the same type, of this object or another
            let mut pool: Vec<(El, &[u8])> = vec![];
            for (k, o) in others {
                for (p, e) in layout_in::<S>(*k, o) {
                    if e != El::Count {
                        pool.push((e, &o[p..p + e.size()]));
                    }
                }
            }
            for _ in 0..rng.range(1, 4) {
                let (p, e) = *rng.pick(&lay);
                let c: Vec<_> = pool.iter().filter(|x| x.0 == e).collect();
                if !c.is_empty() {
                    let x = rng.pick(&c).1;
                    v[p..p + x.len()].copy_from_slice(x);
                }
            }
            ("elements replaced".into(), v)
        }
        10 => {
            // a neutral element
            for _ in 0..rng.range(1, 3) {
                let (p, e) = *rng.pick(&lay);
                match e {
                    El::S => v[p..p + 32].fill(0),
                    El::G1 | El::G2 => {
                        v[p..p + e.size()].fill(0);
                        v[p] = 0xc0;
                    }
                    El::Gt => v[p..p + 288].copy_from_slice(&cosmian_bls12_381::Gt::identity().to_compressed()),
                    _ => {}
                }
            }
            ("neutral elements".into(), v)
        }
        11 => {
            // start of this one, end of another
            let o = &rng.pick(others).1;
            let (p, q) = (at(rng), rng.below(o.len()));
            v.truncate(p);
            v.extend_from_slice(&o[q..]);
            ("spliced".into(), v)
        }
        12 => {
            // elements removed or repeated without changing the counts
            let (p, e) = *rng.pick(&lay);
            if rng.chance(1, 2) {
                v.drain(p..p + e.size());
            } else {
                let x = v[p..p + e.size()].to_vec();
                for _ in 0..rng.range(1, 4) {
                    v.splice(p..p, x.iter().copied());
                }
            }
            ("element removed or repeated".into(), v)
        }
        _ => {
            // repeated, and the count with it
            let c: Vec<usize> = (0..lay.len()).filter(|i| lay[*i].1 == El::Count && i + 1 < lay.len()).collect();
            if c.is_empty() {
                return ("as is".into(), v);
            }
            let i = *rng.pick(&c);
            let (p, e) = lay[i + 1];
            let n = rng.range(1, 30);
            let x = v[p..p + e.size()].to_vec();
            for _ in 0..n {
                v.splice(p..p, x.iter().copied());
            }
            let q = lay[i].0;
            let old = u32::from_be_bytes(b[q..q + 4].try_into().unwrap());
            v[q..q + 4].copy_from_slice(&(old + n as u32).to_be_bytes());
            ("element repeated and counted".into(), v)
        }
    }
}

/// Uses an object accepted by its parser with valid ones, in every operation
fn exercise<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, b: &Bench<S>, o: &Obj<S>, bytes: &[u8], what: &str) {
    let a = &b.a;
    let (p, eng) = (&a.w.policy, &a.eng);
    let ap = a.w.m.access(&b.f);
    let n = |ctx: &mut Ctx| ctx.count("operations on accepted objects", 1);
    watch(ctx, &format!("serialization of {what}"), &[bytes], 0, || reserialize(o).map(|r| r.len()));
    match o {
        Obj::Msk(k) => {
            let r = watch(ctx, &format!("key generation with {what}"), &[bytes], 0, || eng.generate_user_key(p, k, &ap));
            if let Some(Ok(uk)) = r {
                watch(ctx, &format!("decryption after {what}"), &[bytes], 0, || eng.decrypt(&b.ct, &uk).is_ok());
            }
            watch(ctx, &format!("key for all with {what}"), &[bytes], 0, || eng.generate_user_key(p, k, &AccessPolicy::All).is_ok());
            n(ctx);
        }
        Obj::Mpk(k) => {
            let l = a.w.m.attrs_of(&b.l);
            let r = watch(ctx, &format!("encryption with {what}"), &[bytes], 0, || eng.encrypt(p, k, &l, &b.msg));
            if let Some(Ok(ct)) = r {
                watch(ctx, &format!("decryption after {what}"), &[bytes], 0, || eng.decrypt(&ct, &b.key).is_ok());
                watch(ctx, &format!("serialization after {what}"), &[bytes], 0, || ct.try_into_bytes().is_ok());
            }
            watch(ctx, &format!("header with {what}"), &[bytes], 0, || hy::encrypt_header_in::<S>(p, k, &l, Some(&b.meta)).is_ok());
            n(ctx);
        }
        Obj::Mdk(k) => {
            for ap in [&ap, &AccessPolicy::All] {
                let r = watch(ctx, &format!("delegation with {what}"), &[bytes], 0, || eng.delegate_user_key(p, k, &b.key, ap));
                if let Some(Ok(uk)) = r {
                    watch(ctx, &format!("decryption after {what}"), &[bytes], 0, || eng.decrypt(&b.ct, &uk).is_ok());
                }
            }
            n(ctx);
        }
        Obj::Uk(k) => {
            let f = if rng.chance(1, 2) { gen_formula(rng, &a.w.m, 5) } else { b.f.clone() };
            let r = watch(ctx, &format!("decryption with {what}"), &[bytes], 0, || eng.decrypt(&b.ct, k).is_ok());
            let _ = r;
            for ap in [&a.w.m.access(&f), &AccessPolicy::All] {
                let r = watch(ctx, &format!("delegation of {what}"), &[bytes], 0, || eng.delegate_user_key(p, &a.mdk, k, ap));
                if let Some(Ok(uk)) = r {
                    watch(ctx, &format!("decryption after delegation of {what}"), &[bytes], 0, || eng.decrypt(&b.ct, &uk).is_ok());
                    watch(ctx, &format!("serialization after {what}"), &[bytes], 0, || uk.try_into_bytes().is_ok());
                }
            }
            watch(ctx, &format!("header with {what}"), &[bytes], 0, || hy::decrypt_header_in::<S>(k, &b.header.1).is_ok());
            n(ctx);
        }
        Obj::Ct(c) => {
            watch(ctx, &format!("decryption of {what}"), &[bytes], 0, || eng.decrypt(c, &b.key).is_ok());
            watch(ctx, &format!("decryption of the symmetric key in {what}"), &[bytes], 0, || {
                eng.decrypt_symmetric_key(&b.key, bytes, 32).is_ok()
            });
            n(ctx);
        }
        Obj::MspI(m) => {
            let sch = S::default();
            watch(ctx, &format!("key generation for {what}"), &[bytes], 0, || {
                AbeScheme::key_generation(&sch, m, &a.msk).map(|k| {
                    let _ = a.eng.decrypt(&b.ct, &k);
                    k.try_into_bytes().is_ok()
                })
            });
            watch(ctx, &format!("delegation for {what}"), &[bytes], 0, || {
                AbeScheme::key_delegation(&sch, &Some(m.clone()), &b.key, &a.mdk).map(|k| {
                    let _ = a.eng.decrypt(&b.ct, &k);
                })
            });
            watch(ctx, &format!("display of {what}"), &[bytes], 0, || m.to_string().len());
            n(ctx);
        }
        Obj::Other(_) => {}
    }
}

fn feed<S: Scheme>(ctx: &mut Ctx, rng: &mut Rng, b: &Bench<S>, k: Kind, bytes: &[u8], how: &str) {
    let what = format!("{k:?} {how}");
    let r = watch(ctx, &format!("parsing of {what}"), &[bytes], 0, || parse::<S>(k, bytes));
    ctx.count("inputs parsed", 1);
    let outcome = match &r {
        Some(Ok(_)) => "accepted".to_string(),
        Some(Err(e)) => e.chars().take(40).collect(),
        None => "panic".into(),
    };
    ctx.eval(Some(&format!("{what} {outcome}")));
    ctx.evals -= 1;
    if let Some(Ok(o)) = r {
        ctx.count("inputs accepted", 1);
        exercise(ctx, rng, b, &o, bytes, &what);
    }
}

fn ap_json(a: &Auth, f: &F) -> String {
    serde_json::to_string(&a.w.m.access(f)).expect("json")
}

fn corrupted<S: Scheme>(ctx: &mut Ctx) {
    ctx.phase(&S::phase("corrupted"), S::n(240, 8), S::n(6000, 8), |ctx, rng| {
        let p = if S::CLEAR { profile(rng) } else { &SMALL };
        let b = must!(ctx, bench_in::<S>(rng, p), "setup");
        for _ in 0..60 {
            let (k, o) = rng.pick(&b.objects).clone();
            let (mut how, mut v) = corrupt::<S>(rng, k, &o, &b.objects);
            if rng.chance(1, 5) {
                // twice, when the layout is still that of an object
                if v.len() == o.len() && how != "count changed" && how != "all counts changed" {
                    let mut r = rng.clone();
                    let twice = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        corrupt::<S>(&mut r, k, &v, &b.objects)
                    }));
                    if let Ok((h, w)) = twice {
                        how = format!("{how}, {h}");
                        v = w;
                    }
                    rng.u64();
                }
            }
            // mostly as what it is, sometimes as something else
            let as_kind = if rng.chance(7, 8) { k } else { *rng.pick(&KINDS) };
            ctx.sample(|| format!("{k:?} of {} bytes, {how}, read as {as_kind:?}", v.len()));
            feed(ctx, rng, &b, as_kind, &v, &how);
            if ctx.violated() {
                return;
            }
        }
    });
}

fn count32(v: &[u32]) -> u32 {
    v.len() as u32
}
fn scalars(v: &[cosmian_bls12_381::Scalar]) -> Vec<u8> {
    let mut b = (v.len() as u32).to_be_bytes().to_vec();
    v.iter().for_each(|x| b.extend(x.to_bytes()));
    b
}

fn foreign<S: Scheme>(ctx: &mut Ctx) {
    ctx.phase(&S::phase("foreign"), S::n(100, 10), S::n(2500, 10), |ctx, rng| {
        // well-formed objects that were not made for each other
        let b = must!(ctx, bench_in::<S>(rng, &SMALL), "setup");
        let c = must!(ctx, bench_in::<S>(rng, &SMALL), "setup");
        let (ea, ec) = (&b.a, &c.a);
        let sizes: Vec<u8> = vec![0; b.objects[1].1.len() + c.objects[1].1.len()];
        let inp: [&[u8]; 1] = [&sizes];
        let apb = ea.w.m.access(&b.f);
        let apc = ec.w.m.access(&c.f);
        for ap in [&apb, &apc, &AccessPolicy::All] {
            watch(ctx, "key of another policy", &inp, 0, || ea.eng.generate_user_key(&ec.w.policy, &ea.msk, ap).is_ok());
            watch(ctx, "key for a formula of another policy", &inp, 0, || ea.eng.generate_user_key(&ea.w.policy, &ea.msk, ap).is_ok());
            for (p, d, k) in [(&ea.w.policy, &ec.mdk, &b.key), (&ec.w.policy, &ea.mdk, &b.key), (&ea.w.policy, &ea.mdk, &c.key)] {
                let r = watch(ctx, "foreign delegation", &inp, 0, || ea.eng.delegate_user_key(p, d, k, ap));
                if let Some(Ok(k)) = r {
                    watch(ctx, "decryption after a foreign delegation", &inp, 0, || ea.eng.decrypt(&b.ct, &k).is_ok());
                }
            }
            ctx.count("operations on foreign objects", 5);
        }
        for (k, t) in [(&b.key, &c.ct), (&c.key, &b.ct)] {
            watch(ctx, "foreign decryption", &inp, 0, || ea.eng.decrypt(t, k).is_ok());
        }
        for (p, k, l) in [(&ea.w.policy, &ec.mpk, ea.w.m.attrs_of(&b.l)), (&ec.w.policy, &ea.mpk, ec.w.m.attrs_of(&c.l)), (&ea.w.policy, &ea.mpk, ec.w.m.attrs_of(&c.l))] {
            watch(ctx, "foreign encryption", &inp, 0, || ea.eng.encrypt(p, k, &l, &b.msg).is_ok());
        }
        watch(ctx, "foreign header", &inp, 0, || hy::decrypt_header_in::<S>(&c.key, &b.header.1).is_ok());
        // keys with any matrix, cipher texts with any attributes
        for _ in 0..S::n(6, 4) {
            let rows = rng.range(1, 7);
            let cols = rng.range(1, 7);
            let mut attrs: Vec<u32> = (0..rows as u32).map(|i| if rng.chance(1, 6) { *rng.pick(&SPECIAL) } else { i + 1 }).collect();
            attrs.sort_unstable();
            attrs.dedup();
            rng.shuffle(&mut attrs);
            let dense = rng.range(1, 4);
            let m: Vec<Vec<_>> = attrs
                .iter()
                .map(|_| (0..cols).map(|_| match rng.below(4 + dense) {
                    0..=2 => int(0),
                    3 => int(1),
                    4 => int(-1),
                    _ => scalar(rng),
                }).collect())
                .collect();
            let kb = if S::CLEAR {
                let d: Vec<_> = attrs.iter().map(|_| scalar(rng)).collect();
                let mut v = scalars(&d);
                v.extend((count32(&attrs)).to_be_bytes());
                v.extend((cols as u32).to_be_bytes());
                attrs.iter().for_each(|x| v.extend(x.to_be_bytes()));
                m.iter().flatten().for_each(|x| v.extend(x.to_bytes()));
                v
            } else {
                RUk { d: attrs.iter().map(|_| (cosmian_bls12_381::G2Affine::generator() * scalar(rng)).into()).collect(), attrs: attrs.clone(), m }.bytes()
            };
            let mut gamma: Vec<u32> = attrs.iter().filter(|_| rng.chance(3, 4)).copied().collect();
            if rng.chance(1, 3) {
                gamma.extend(gamma.clone());
            }
            gamma.push(*rng.pick(&SPECIAL));
            let cb = if S::CLEAR {
                let e: Vec<_> = gamma.iter().map(|_| scalar(rng)).collect();
                let mut v = count32(&gamma).to_be_bytes().to_vec();
                gamma.iter().for_each(|x| v.extend(x.to_be_bytes()));
                v.extend(scalars(&e));
                v.extend(scalar(rng).to_bytes());
                v
            } else {
                RCt { e: gamma.iter().map(|_| (cosmian_bls12_381::G1Affine::generator() * scalar(rng)).into()).collect(), gamma, ep: random_gt(rng) }.bytes()
            };
            let r = watch(ctx, "parsing of an arbitrary key", &[&kb], 0, || dec::<S::UserDecryptionKey>(&kb));
            let t = watch(ctx, "parsing of an arbitrary cipher text", &[&cb], 0, || dec::<S::CipherText>(&cb));
            if let (Some(Ok(k)), Some(Ok(t))) = (r, t) {
                watch(ctx, "decryption with an arbitrary key", &[&kb, &cb], 0, || ea.eng.decrypt(&t, &k).is_ok());
                watch(ctx, "delegation of an arbitrary key", &[&kb, &sizes], 0, || ea.eng.delegate_user_key(&ea.w.policy, &ea.mdk, &k, &AccessPolicy::All).is_ok());
                for f in [&apb, &AccessPolicy::Attr(ea.w.m.attr((0, 0)))] {
                    watch(ctx, "delegation of an arbitrary key", &[&kb, &sizes], 0, || ea.eng.delegate_user_key(&ea.w.policy, &ea.mdk, &k, f).is_ok());
                }
                ctx.count("operations on foreign objects", 4);
                ctx.eval(Some(&format!("arbitrary {} {cols} {}", attrs.len(), cb.len())));
            }
        }
    });
}

fn run(ctx: &mut Ctx) {
    corrupted::<Sch>(ctx);
    #[cfg(feature = "clear")]
    corrupted::<crate::clear::Clr>(ctx);
    ctx.phase("truncations", 8, 80, |ctx, rng| {
        // every truncation of every object of one authority, element after element
        let b = must!(ctx, bench(rng, &SMALL), "setup");
        for (k, o) in &b.objects {
            let lay = layout(*k, o);
            for n in 0..o.len() {
                let near = lay.iter().any(|(p, e)| n + 1 >= *p && n <= *p + 1 || n + 1 >= p + e.size() && n <= p + e.size() + 1);
                if !near && n > 64 && n % 17 != 0 {
                    continue;
                }
                feed(ctx, rng, &b, *k, &o[..n], "truncated");
                if ctx.violated() {
                    return;
                }
            }
            // and every other kind of object
            for as_kind in KINDS {
                feed(ctx, rng, &b, as_kind, o, "of another kind");
            }
        }
    });
    ctx.phase("short", 16, 64, |ctx, rng| {
        let b = must!(ctx, bench(rng, &SMALL), "setup");
        for k in KINDS {
            for n in 0..40usize {
                for c in [0u8, 1, 0x7f, 0x80, 0xff, 0xc0] {
                    feed(ctx, rng, &b, k, &vec![c; n], "regular");
                }
                let r = rng.bytes(n);
                feed(ctx, rng, &b, k, &r, "random");
                // small counts first
                let mut r = rng.bytes(n + 12);
                for i in 0..12 {
                    r[i] = if i % 4 == 3 { rng.below(6) as u8 } else { 0 };
                }
                feed(ctx, rng, &b, k, &r, "small counts");
            }
            for n in [1usize, 3, 47, 48, 95, 96, 287, 288, 1000, 5000] {
                for s in SPECIAL {
                    let mut v: Vec<u8> = s.to_be_bytes().repeat(3);
                    v.resize(12 + n, *rng.pick(&[0u8, 0xc0, 1]));
                    feed(ctx, rng, &b, k, &v, "counts");
                }
                if ctx.violated() {
                    return;
                }
            }
        }
    });
    ctx.phase("headers", 160, 4000, |ctx, rng| {
        let b = must!(ctx, bench(rng, &SMALL), "setup");
        let h = &b.header.1;
        let n = u32::from_be_bytes(h[..4].try_into().unwrap()) as usize;
        for _ in 0..24 {
            let mut v = h.clone();
            let how = match rng.below(8) {
                0 => {
                    let n = rng.below(v.len());
                    v.truncate(n);
                    "truncated"
                }
                1 => {
                    // around the end of the encapsulation
                    let m = (4 + n + rng.below(24)).saturating_sub(4).min(v.len());
                    v.truncate(m);
                    "cut in the metadata"
                }
                2 => {
                    v[..4].copy_from_slice(&rng.pick(&SPECIAL).to_be_bytes());
                    "size of the encapsulation"
                }
                3 => {
                    let p = 4 + n + 12;
                    v[p..p + 4].copy_from_slice(&rng.pick(&SPECIAL).to_be_bytes());
                    "size of the metadata"
                }
                4 => {
                    let m = rng.range(1, 50);
                    v.extend(rng.bytes(m));
                    "extended"
                }
                5 => {
                    let p = rng.below(v.len());
                    v[p] ^= 1 << rng.below(8);
                    "bit flipped"
                }
                6 => {
                    let d = (rng.below(9) as i64 - 4 + n as i64).max(0) as u32;
                    v[..4].copy_from_slice(&d.to_be_bytes());
                    "size of the encapsulation, nearly right"
                }
                _ => {
                    let (_, c) = corrupt::<Sch>(rng, Kind::Ct, b.of(Kind::Ct), &b.objects);
                    let mut w = (c.len() as u32).to_be_bytes().to_vec();
                    w.extend_from_slice(&c);
                    w.extend_from_slice(&h[4 + n..]);
                    v = w;
                    "corrupted encapsulation"
                }
            };
            let key = enc(&b.key);
            let r = watch(ctx, &format!("decryption of a header, {how}"), &[&v, &key], 0, || hy::decrypt_header(&b.key, &v).is_ok());
            watch(ctx, &format!("encrypted header, {how}"), &[&v], 0, || hy::EncryptedHeader::<hy::Aes>::try_from_bytes(&v).map(|h| h.try_into_bytes().is_ok()).is_ok());
            watch(ctx, &format!("clear header, {how}"), &[&v], 0, || hy::ClearTextHeader::<hy::Aes>::try_from_bytes(&v).map(|h| h.try_into_bytes().is_ok()).is_ok());
            ctx.count("hostile headers", 1);
            ctx.eval(Some(&format!("header {how} {r:?}")));
        }
        // headers made by one who holds the public key: the metadata are authentic, and anything
        let mpk = b.a.mpk_ref().expect("public key");
        let vals: Vec<u32> = b.a.w.m.currents(&b.l).into_iter().collect();
        for _ in 0..6 {
            let msg = random_gt(rng);
            let ct = mpk.encrypt(rng, &msg, &vals).bytes();
            let sym = shake(&msg, 32);
            let meta = match rng.below(5) {
                0 => {
                    let n = rng.below(12);
                    rng.bytes(n)
                }
                1 => rng.pick(&SPECIAL).to_be_bytes().to_vec(),
                2 => {
                    let mut m = rng.pick(&SPECIAL).to_be_bytes().to_vec();
                    let n = rng.below(20);
                    m.extend(rng.bytes(n));
                    m
                }
                3 => {
                    let n = rng.below(10);
                    let mut m = ((n + rng.below(3)) as u32).saturating_sub(1).to_be_bytes().to_vec();
                    m.extend(rng.bytes(n));
                    m
                }
                _ => vec![0; rng.below(9)],
            };
            let nonce: [u8; 12] = rng.bytes(12).try_into().unwrap();
            let v = header_bytes(&ct, &sym, Some((&nonce, &meta)));
            let r = watch(ctx, "decryption of a header with hostile metadata", &[&v, &enc(&b.key)], 0, || hy::decrypt_header(&b.key, &v).is_ok());
            // the clear header with these metadata
            let mut c = 32u32.to_be_bytes().to_vec();
            c.extend_from_slice(&sym);
            c.extend_from_slice(&meta);
            watch(ctx, "clear header with hostile metadata", &[&c], 0, || hy::ClearTextHeader::<hy::Aes>::try_from_bytes(&c).map(|h| h.try_into_bytes().is_ok()).is_ok());
            ctx.count("hostile authenticated metadata", 1);
            ctx.eval(Some(&format!("metadata {} {r:?}", hex::encode(&meta))));
        }
    });
    ctx.phase("blocks", 80, 2000, |ctx, rng| {
        let key = rng.bytes(32);
        for _ in 0..30 {
            let n = *rng.pick(&[0usize, 1, 11, 12, 13, 27, 28, 29, 60, 61, 62, 200]);
            let v = if rng.chance(1, 2) { rng.bytes(n) } else { vec![*rng.pick(&[0u8, 0xff]); n] };
            let (u, num) = (rng.bytes(n % 20), rng.u64() as usize);
            watch(ctx, "decryption of a block", &[&v], 0, || hy::dec_block(&key, &u, num, &v).is_ok());
            watch(ctx, "decryption of a small block", &[&v], 0, || hy::dec_block_n::<32>(&key, &u, num, &v).is_ok());
            watch(ctx, "encryption of a block", &[&v], 0, || hy::enc_block_n::<32>(&key, &u, num, &v).is_ok());
            watch(ctx, "encryption of a block", &[&v], 0, || hy::enc_block(&key, &u, num, &v).is_ok());
            let bad = rng.bytes(n % 40);
            watch(ctx, "symmetric key", &[&bad], 0, || hy::enc_block(&bad, &u, num, &[1]).is_ok());
            ctx.count("hostile blocks", 1);
            ctx.eval(Some(&format!("block {n}")));
        }
    });
    foreign::<Sch>(ctx);
    #[cfg(feature = "clear")]
    foreign::<crate::clear::Clr>(ctx);
    ctx.phase("c-functions", 60, 1500, |ctx, rng| {
        // a panic there ends the process
        let b = must!(ctx, bench(rng, &SMALL), "setup");
        let policy = b.a.w.policy.to_string();
        let ap = ap_json(&b.a, &b.f);
        let attrs = serde_json::to_string(&b.a.w.m.attrs_of(&b.l)).expect("json");
        for _ in 0..8 {
            let mut bad = |k: Kind| {
                let (_, v) = corrupt::<Sch>(rng, k, b.of(k), &b.objects);
                if v.is_empty() { vec![0] } else { v }
            };
            let (msk, mpk, uk, ct) = (bad(Kind::Msk), bad(Kind::Mpk), bad(Kind::Uk), bad(Kind::Ct));
            let mut h = (ct.len() as u32).to_be_bytes().to_vec();
            h.extend_from_slice(&ct);
            if rng.chance(1, 2) {
                h = b.header.1.clone();
                let p = rng.below(h.len());
                h[p] ^= 1 << rng.below(8);
            }
            let good = enc(&b.key);
            watch(ctx, "h_generate_user_private_key", &[&msk], 1 << 20, || ffi::user_key(&msk, &ap, &policy).is_ok());
            watch(ctx, "h_aes_encrypt_header", &[&mpk], 1 << 20, || ffi::enc_header(&policy, &mpk, &attrs, &b.meta.0, &[]).is_ok());
            watch(ctx, "h_aes_decrypt_header", &[&h, &good], 1 << 20, || ffi::dec_header(&h, &good).is_ok());
            watch(ctx, "h_aes_decrypt_header", &[&uk, &h], 1 << 20, || ffi::dec_header(&b.header.1, &uk).is_ok());
            let e = watch(ctx, "h_aes_create_encryption_cache", &[&mpk], 1 << 20, || ffi::enc_create(&policy, &mpk));
            if let Some(Ok(e)) = e {
                watch(ctx, "h_aes_encrypt_header_using_cache", &[&mpk], 1 << 20, || ffi::enc_cached(e, &attrs, &b.meta.0, &[]).is_ok());
                ffi::enc_destroy(e);
            }
            let d = watch(ctx, "h_aes_create_decryption_cache", &[&uk], 1 << 20, || ffi::dec_create(&uk));
            if let Some(Ok(d)) = d {
                watch(ctx, "h_aes_decrypt_header_using_cache", &[&uk, &h], 1 << 20, || ffi::dec_cached(d, &h).is_ok());
                ffi::dec_destroy(d);
            }
            let size = rng.range(1, 70);
            let blk = rng.bytes(size);
            watch(ctx, "h_aes_decrypt_block", &[&blk], 1 << 20, || ffi::dec_block(&b.header.0, &b.meta.0, rng.u64() as i32, &blk).is_ok());
            ctx.count("calls of the C functions", 7);
            ctx.evals += 1;
        }
    });
    interfaces::run(ctx, interfaces::What::Hostile, (0, 24, 12), interfaces::crashes);
}
