use super::*;
use super::c10::gen_meta;
use crate::ffi;
use crate::reference::*;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    workers: 8,
    rule: "every bit of sampled blocks and every byte of sampled headers altered, plus truncations, extensions, insertions, exchanges and splices between headers and blocks of the same or of other keys, identifiers and numbers, through the native and the C functions; what is accepted is compared with the original; distinct = (what was altered, where, object)",
    floors: &[
        ("blocks opened at the same places", 200),
        ("altered blocks refused", 5000), ("blocks with other parameters refused", 500), ("altered headers refused", 1000),
        ("altered headers giving another key", 20), ("spliced headers", 300), ("long identifiers", 50), ("large metadata", 50),
        ("C: refusals", 200),
        ("Python: refusals", 120),
        ("WebAssembly: refusals", 60),
    ],
    assumptions: &[REF, "AES-GCM forgeries and Shake256 collisions do not occur by chance"],
};

/// An altered block must be refused, whatever the path
fn refused_block(ctx: &mut Ctx, key: &[u8], uid: &[u8], n: usize, b: &[u8], c: bool, what: &str) -> bool {
    ctx.journal(what);
    let r = if c { ffi::dec_block(key, uid, n as i32, b) } else { hy::dec_block(key, uid, n, b) };
    if let Ok(d) = r {
        ctx.violation(
            format!("{what}: the block still decrypts, to {} bytes", d.len()),
            json!({"key": hex::encode(key), "uid": hex::encode(uid), "number": n, "block": hex::encode(&b[..b.len().min(2000)])}),
        );
        return false;
    }
    true
}

fn blocks(ctx: &mut Ctx, rng: &mut Rng) {
    let key = rng.bytes(32);
    let un = *rng.pick(&[0usize, 1, 7, 8, 9, 16, 32]);
    let uid = rng.bytes(un);
    let n = match rng.below(5) {
        0 => 0,
        1 => 255 + rng.below(2),
        2 => rng.below(1 << 31),
        _ => rng.below(1000),
    };
    let size = rng.range(1, 90);
    let data = rng.bytes(size);
    let c = rng.chance(1, 4);
    let b = must!(ctx, if c { ffi::enc_block(&key, &uid, n as i32, &data) } else { hy::enc_block(&key, &uid, n, &data) }, "block");
    // the original decrypts
    let d = must!(ctx, hy::dec_block(&key, &uid, n, &b), "decryption");
    assert!(d == data);
    let mut k = 0;
    for i in 0..b.len() * 8 {
        if c && i % 8 != 3 {
            continue;
        }
        let mut x = b.clone();
        x[i / 8] ^= 1 << (i % 8);
        if !refused_block(ctx, &key, &uid, n, &x, c, &format!("bit {i} of a block of {} bytes flipped", b.len())) {
            return;
        }
        k += 1;
    }
    for i in 0..b.len() {
        if !refused_block(ctx, &key, &uid, n, &b[..i], c, "block cut at its end") {
            return;
        }
        if i > 0 && !refused_block(ctx, &key, &uid, n, &b[i..], c, "block cut at its beginning") {
            return;
        }
        let mut x = b.clone();
        x.remove(i);
        if x != b && !refused_block(ctx, &key, &uid, n, &x, c, "byte removed") {
            return;
        }
        let v = rng.u64() as u8;
        x = b.clone();
        x.insert(i, v);
        if !refused_block(ctx, &key, &uid, n, &x, c, "byte inserted") {
            return;
        }
        k += 4;
    }
    for extra in [1usize, 4, 16, 28] {
        for fill in [0u8, 0xFF] {
            let mut x = b.clone();
            x.resize(b.len() + extra, fill);
            if !refused_block(ctx, &key, &uid, n, &x, c, "block followed by other bytes") {
                return;
            }
            k += 1;
        }
    }
    for (x, what) in [
        ([&b[..], &b[..]].concat(), "block twice"),
        (b.iter().rev().copied().collect(), "block reversed"),
        ([&b[12..], &b[..12]].concat(), "nonce moved"),
        ([&b[..12], &b[b.len() - 16..], &b[12..b.len() - 16]].concat(), "tag moved"),
        ([&[0u8; 12][..], &b[12..]].concat(), "nonce zeroed"),
        ([&b[..b.len() - 16], &[0u8; 16][..]].concat(), "tag zeroed"),
        (data.clone(), "clear text instead of a block"),
    ] {
        if x != b && !refused_block(ctx, &key, &uid, n, &x, c, what) {
            return;
        }
        k += 1;
    }
    ctx.count("altered blocks refused", k);
    // other key, identifier, number
    let mut k = 0;
    for i in 0..64 {
        let mut x = key.clone();
        let bit = if i < 32 { i * 8 + rng.below(8) } else { rng.below(256) };
        x[bit / 8] ^= 1 << (bit % 8);
        if !refused_block(ctx, &x, &uid, n, &b, c, &format!("bit {bit} of the symmetric key flipped")) {
            return;
        }
        k += 1;
    }
    let mut uids: Vec<Vec<u8>> = vec![[&uid[..], &[0]].concat(), [&[0][..], &uid].concat(), [&uid[..], &uid].concat(), [&uid[..], &n.to_le_bytes()].concat(), vec![]];
    for i in 0..uid.len() * 8 {
        let mut x = uid.clone();
        x[i / 8] ^= 1 << (i % 8);
        uids.push(x);
    }
    for i in 0..uid.len() {
        uids.push(uid[..i].to_vec());
        uids.push(uid[i + 1..].to_vec());
        let mut x = uid.clone();
        x.swap(i, (i + 1) % uid.len());
        uids.push(x);
    }
    for x in uids {
        if x != uid {
            if !refused_block(ctx, &key, &x, n, &b, c, "another identifier") {
                return;
            }
            k += 1;
        }
    }
    let mut numbers: Vec<usize> = (0..if c { 31 } else { 64 }).map(|i| n ^ (1 << i)).collect();
    numbers.extend([n + 1, n.wrapping_sub(1), 0, n.swap_bytes(), n << 8, n >> 8, n << 32, n + 256, n + 65536]);
    for x in numbers {
        if x != n && !(c && x > i32::MAX as usize) {
            if !refused_block(ctx, &key, &uid, x, &b, c, &format!("number {x} instead of {n}")) {
                return;
            }
            k += 1;
        }
    }
    // bytes moved between the identifier and the number
    if un >= 8 && !c {
        let moved = usize::from_le_bytes(uid[un - 8..].try_into().unwrap());
        if !refused_block(ctx, &key, &uid[..un - 8], moved, &b, c, "identifier cut, its end as number") {
            return;
        }
        k += 1;
    }
    ctx.count("blocks with other parameters refused", k);
    ctx.eval(Some(&format!("block {size} {un} {n}")));
    ctx.sample(|| format!("block of {size} bytes, identifier of {un}, number {n}: every bit, byte, parameter"));
    // blocks of the same resource exchanged, halves spliced
    let data2 = rng.bytes(size);
    let b2 = must!(ctx, hy::enc_block(&key, &uid, n + 1, &data2), "block");
    let b3 = must!(ctx, hy::enc_block(&key, &uid, n, &data2), "block");
    let mut k = 0;
    if !refused_block(ctx, &key, &uid, n, &b2, c, "another block of the resource") {
        return;
    }
    for cut in 1..b.len() {
        let x = [&b[..cut], &b3[cut..]].concat();
        if x != b && x != b3 && !refused_block(ctx, &key, &uid, n, &x, c, "two blocks spliced") {
            return;
        }
        k += 1;
    }
    ctx.count("altered blocks refused", k);
}

struct Hd {
    sk: Vec<u8>,
    bytes: Vec<u8>,
    meta: hy::Meta,
    uk: Uk,
    kb: Vec<u8>,
    block: Vec<u8>,
    /// the key uses every component of the encapsulation
    strict: bool,
}

fn fresh(a: &Auth, key: &Uk, l: &[At], meta: Option<&hy::Meta>, strict: bool) -> Result<Hd, String> {
    let (sk, bytes) = hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(l), meta).map_err(|e| e.to_string())?;
    let meta = hy::expected(meta);
    let block = hy::enc_block(&sk, &meta.0, 1, b"data of the resource")?;
    Ok(Hd { sk, bytes, meta, uk: roundtrip(key)?, kb: enc(key), block, strict })
}

/// `x` was made from `h` (and perhaps others): it must be refused or give a key
/// which is not one of `keys`; an original key may only come with its own metadata.
fn judged(ctx: &mut Ctx, originals: &[&Hd], h: &Hd, x: &[u8], c: bool, what: &str) -> bool {
    if originals.iter().any(|o| o.bytes == x) {
        return true;
    }
    ctx.journal(what);
    let r = if c {
        ffi::dec_header(x, &h.kb).map(|(k, u, a)| (k, (u, Some(a).filter(|a| !a.is_empty()))))
    } else {
        hy::decrypt_header(&h.uk, x).map_err(|e| e.to_string())
    };
    ctx.eval(Some(&format!("{what} {}", hex::encode(&h.sk[..4]))));
    match r {
        Err(_) => {
            ctx.count("altered headers refused", 1);
            true
        }
        Ok((k, m)) => {
            if let Some(o) = originals.iter().find(|o| o.sk == k) {
                // the whole metadata removed: the format has it optional
                let n = 4 + u32::from_be_bytes(o.bytes[..4].try_into().unwrap()) as usize;
                let removed = m == (vec![], None) && (!h.strict || x.get(4..n) == o.bytes.get(4..n));
                // the encapsulation altered where this key does not use it
                let tail = |b: &[u8]| {
                    let n = 4 + u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
                    b[n.min(b.len())..].to_vec()
                };
                let unused = !h.strict && m == o.meta && tail(x) == tail(&o.bytes);
                if unused {
                    ctx.count("encapsulations altered where they are not used", 1);
                    return true;
                }
                if !removed {
                    ctx.violation(
                        format!(
                            "{what}: the altered header gives the original key with {} metadata",
                            if m == o.meta { "the original" } else { "other" }
                        ),
                        json!({"key": hex::encode(&h.kb), "original": hex::encode(&o.bytes[..o.bytes.len().min(3000)]), "altered": hex::encode(&x[..x.len().min(3000)]),
                            "metadata": format!("{:?}", (m.0.len(), m.1.map(|a| a.len())))}),
                    );
                    return false;
                }
                ctx.count("metadata removed as a whole", 1);
                return true;
            }
            ctx.count("altered headers giving another key", 1);
            for o in originals {
                if hy::dec_block(&k, &o.meta.0, 1, &o.block).is_ok() {
                    ctx.violation(format!("{what}: the other key of the altered header decrypts a block"), json!({}));
                    return false;
                }
            }
            true
        }
    }
}

fn headers(ctx: &mut Ctx, rng: &mut Rng) {
    let p = Profile { axes: (1, 3), attrs: (1, 4), spare: (0, 2), rotations: (0, 2), plain: true };
    let w = gen_world(rng, &p);
    let a = must!(ctx, Auth::new(w), "setup");
    // conjunctions and lists of exactly what they need: everything in the encapsulation counts
    let strict = rng.chance(1, 2);
    let f = if strict {
        let leaves = gen_leaves(rng, &a.w.m, 4);
        gen_tree(rng, &leaves, 10, 0)
    } else {
        gen_formula(rng, &a.w.m, 4)
    };
    let key = must!(ctx, a.key(&f), "key");
    let list = |rng: &mut Rng| {
        if !strict {
            return gen_sat(rng, &a.w.m, &f);
        }
        let mut l = vec![];
        f.leaves(&mut l);
        l.iter().map(|x| *rng.pick(&a.w.m.covers(*x))).collect()
    };
    let (l, l2) = (list(rng), list(rng));
    let small = |rng: &mut Rng| loop {
        let m = gen_meta(rng);
        if m.as_ref().map_or(true, |m| m.0.len() + m.1.as_ref().map_or(0, Vec::len) < 300) {
            return m;
        }
    };
    let (m1, m2) = (small(rng), small(rng));
    let h = must!(ctx, fresh(&a, &key, &l, m1.as_ref(), strict), "header");
    // same list and policy, other metadata; other list; same metadata; without metadata
    let h2 = must!(ctx, fresh(&a, &key, &l, m2.as_ref(), strict), "header");
    let h3 = must!(ctx, fresh(&a, &key, &l2, m1.as_ref(), strict), "header");
    let h4 = must!(ctx, fresh(&a, &key, &l, None, strict), "header");
    let all = [&h, &h2, &h3, &h4];
    let b = &h.bytes;
    let ct_len = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
    let n_attr = u32::from_be_bytes(b[4..8].try_into().unwrap()) as usize;
    ctx.sample(|| format!("header of {} bytes, {n_attr} attributes, metadata {:?}", b.len(), (h.meta.0.len(), h.meta.1.as_ref().map(Vec::len))));
    // every byte after the encapsulation, every bit of the structure, some bits of the points
    let mut at: Vec<usize> = (0..b.len()).filter(|i| *i < 8 + 4 * n_attr + 4 || *i >= 4 + ct_len).flat_map(|i| [i * 8 + rng.below(8), i * 8 + rng.below(8)]).collect();
    for _ in 0..60 {
        at.push(rng.below(b.len() * 8));
    }
    for i in at {
        let mut x = b.clone();
        x[i / 8] ^= 1 << (i % 8);
        let c = rng.chance(1, 6);
        if !judged(ctx, &all, &h, &x, c, &format!("bit {} of byte {} of {}", i % 8, i / 8, b.len())) {
            return;
        }
    }
    // truncation everywhere after the encapsulation and at some places in it
    for i in (0..12).chain(4 + ct_len..b.len()).chain((0..10).map(|_| rng.below(4 + ct_len))) {
        if !judged(ctx, &all, &h, &b[..i], false, "truncated") {
            return;
        }
    }
    for extra in [1usize, 2, 12, 16, 17, 28, 32, 33, 100] {
        let x = [&b[..], &rng.bytes(extra)].concat();
        // bytes after the header: the metadata and key are those of the header, or it is refused
        ctx.journal("extended");
        if let Ok((k, m)) = hy::decrypt_header(&h.uk, &x) {
            if k == h.sk && m != h.meta {
                ctx.violation("bytes added after a header change its metadata", json!({"header": hex::encode(&x)}));
                return;
            }
        }
        ctx.count("extended headers", 1);
    }
    // forged metadata: another nonce and tag, another key, a length that lies
    if b.len() > 4 + ct_len {
        let e = &b[4 + ct_len + 16..];
        let forged = [
            [&b[..4 + ct_len], &rng.bytes(12), &b[4 + ct_len + 12..]].concat(),
            [&b[..4 + ct_len + 12], &(e.len() as u32 - 1).to_be_bytes(), &e[..e.len() - 1]].concat(),
            [&b[..4 + ct_len + 12], &16u32.to_be_bytes(), &e[e.len() - 16..]].concat(),
            [&b[..4 + ct_len + 12], &0u32.to_be_bytes()].concat(),
            [&b[..4 + ct_len + 12], &0u32.to_be_bytes(), e].concat(),
            [&b[..4 + ct_len], &[0u8; 12][..], &16u32.to_be_bytes(), &[0u8; 16]].concat(),
        ];
        for x in forged {
            if !judged(ctx, &all, &h, &x, false, "forged metadata") {
                return;
            }
        }
    }
    let (other_key, nonce) = (rng.bytes(32), [7u8; 12]);
    let x = [&b[..4 + ct_len], &header_bytes(&[], &other_key, Some((&nonce, &meta_bytes(b"forged", Some(b"x")))))[4..]].concat();
    if !judged(ctx, &all, &h, &x, false, "metadata encrypted with another key") {
        return;
    }
    // plain metadata in the place of encrypted ones
    let plain = meta_bytes(b"forged", None);
    let x = [&b[..4 + ct_len], &nonce[..], &(plain.len() as u32).to_be_bytes(), &plain].concat();
    if !judged(ctx, &all, &h, &x, false, "metadata in clear") {
        return;
    }
    // splices
    let part = |h: &Hd| {
        let n = 4 + u32::from_be_bytes(h.bytes[..4].try_into().unwrap()) as usize;
        (h.bytes[..n].to_vec(), h.bytes[n..].to_vec())
    };
    let parts: Vec<_> = all.iter().map(|h| part(h)).collect();
    for (i, x) in parts.iter().enumerate() {
        for (j, y) in parts.iter().enumerate() {
            if i == j {
                continue;
            }
            let s = [&x.0[..], &y.1].concat();
            ctx.count("spliced headers", 1);
            if !judged(ctx, &all, &h, &s, false, "encapsulation of one header, metadata of another") {
                return;
            }
            let s = [&x.0[..], &x.1, &y.1].concat();
            ctx.journal("metadata of two headers");
            if let Ok((k, m)) = hy::decrypt_header(&h.uk, &s) {
                if all.iter().any(|o| o.sk == k && o.meta != m) {
                    // headers without metadata end with their encapsulation
                    ctx.violation("a header gets the metadata of another", json!({"header": hex::encode(&s)}));
                    return;
                }
            }
        }
    }
    // components of two encapsulations for the same attributes exchanged
    let (Some(c1), Some(c2)) = (RCt::parse(&parts[0].0[4..]), RCt::parse(&parts[1].0[4..])) else {
        ctx.violation("an encapsulation cannot be read", json!({}));
        return;
    };
    // what matters for this key: the rows it uses
    for i in 0..c1.gamma.len().min(c2.gamma.len()) {
        let mut c = c1.clone();
        c.e[i] = c2.e[i];
        let x = [&(ct_len as u32).to_be_bytes()[..], &c.bytes(), &parts[0].1].concat();
        // a component the key does not use, or used with a zero coefficient, has no influence
        ctx.journal("component of another encapsulation");
        ctx.count("spliced headers", 1);
        if let Ok((k, m)) = hy::decrypt_header(&h.uk, &x) {
            if k == h.sk && m != h.meta {
                ctx.violation("an altered encapsulation gives altered metadata", json!({"header": hex::encode(&x)}));
                return;
            }
        }
    }
    let mut c = c1.clone();
    c.ep = c2.ep;
    let x = [&(ct_len as u32).to_be_bytes()[..], &c.bytes(), &parts[0].1].concat();
    if !judged(ctx, &all, &h, &x, false, "masked message of another encapsulation") {
        return;
    }
    let x = [&(ct_len as u32).to_be_bytes()[..], &c.bytes()].concat();
    if !judged(ctx, &all, &h, &x, false, "masked message of another encapsulation, no metadata") {
        return;
    }
    // the masked message multiplied by something known
    let mut c = c1;
    c.ep = c.ep + gt_gen() * scalar(rng);
    for tail in [&parts[0].1[..], &[]] {
        let x = [&(ct_len as u32).to_be_bytes()[..], &c.bytes(), tail].concat();
        if !judged(ctx, &all, &h, &x, rng.chance(1, 2), "masked message multiplied") {
            return;
        }
    }
}

/// Long identifiers and blocks, large metadata: what is far from the beginning counts as well
fn long(ctx: &mut Ctx, rng: &mut Rng) {
    let key = rng.bytes(32);
    let un = match rng.below(4) {
        0 => *rng.pick(&[33usize, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        1 => rng.range(1000, 70_000),
        _ => rng.range(17, 300),
    };
    let uid = rng.bytes(un);
    let size = match rng.below(3) {
        0 => *rng.pick(&[1023usize, 1024, 4096, 65_535, 65_536, 65_537]),
        1 => rng.range(1000, 100_000),
        _ => rng.range(91, 1000),
    };
    let n = rng.below(1 << 31);
    let c = rng.chance(1, 3);
    let data = rng.bytes(size);
    let b = must!(ctx, if c { ffi::enc_block(&key, &uid, n as i32, &data) } else { hy::enc_block(&key, &uid, n, &data) }, "block");
    let mut at: Vec<usize> = (0..24).map(|_| rng.below(b.len())).collect();
    at.extend([b.len() - 1, b.len() - 16, b.len() - 17, 12]);
    for i in at {
        let mut x = b.clone();
        x[i] ^= 1 << rng.below(8);
        if !refused_block(ctx, &key, &uid, n, &x, c, &format!("byte {i} of a block of {} altered", b.len())) {
            return;
        }
        if i > 0 && !refused_block(ctx, &key, &uid, n, &b[..i], c, "block cut at its end") {
            return;
        }
        let mut x = b.clone();
        let j = rng.below(b.len());
        x.swap(i, j);
        if x != b && !refused_block(ctx, &key, &uid, n, &x, c, "two bytes of a block exchanged") {
            return;
        }
    }
    // 16-byte and 64 KiB units exchanged
    for unit in [16usize, 4096, 65_536] {
        if size >= 2 * unit {
            let mut x = b.clone();
            let (l, r) = x[12..].split_at_mut(unit);
            l.swap_with_slice(&mut r[..unit]);
            if x != b && !refused_block(ctx, &key, &uid, n, &x, c, "two parts of a block exchanged") {
                return;
            }
        }
    }
    ctx.count("altered blocks refused", 50);
    let mut at: Vec<usize> = (0..24).map(|_| rng.below(un)).collect();
    at.extend([0, un - 1, un / 2]);
    for i in at {
        let mut x = uid.clone();
        x[i] ^= 1 << rng.below(8);
        let mut y = uid.clone();
        y.truncate(i);
        let mut z = uid.clone();
        z.remove(i);
        for x in [x, y, z] {
            if x != uid && !refused_block(ctx, &key, &x, n, &b, c, &format!("an identifier of {un} bytes altered at {i}")) {
                return;
            }
        }
    }
    let x = [&uid[..], &rng.bytes(1)].concat();
    if !refused_block(ctx, &key, &x, n, &b, c, "an identifier followed by another byte") {
        return;
    }
    ctx.count("blocks with other parameters refused", 80);
    ctx.count("long identifiers", 1);
    ctx.eval(Some(&format!("long block {size} {un}")));
    // large metadata
    let w = gen_world(rng, &SMALL);
    let a = must!(ctx, Auth::new(w), "setup");
    let f = gen_formula(rng, &a.w.m, 3);
    let key = must!(ctx, a.key(&f), "key");
    let l = gen_sat(rng, &a.w.m, &f);
    let an = *rng.pick(&[0usize, 300, 1000, 5000, 65_536, 70_000]);
    let meta: hy::Meta = (uid, (an > 0).then(|| rng.bytes(an)));
    let h = must!(ctx, fresh(&a, &key, &l, Some(&meta), false), "header");
    let b = &h.bytes;
    let from = 4 + u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
    for k in 0..40 {
        let i = match k {
            0 => b.len() - 1,
            1 => b.len() - 17,
            _ => rng.range(from, b.len() - 1),
        };
        let mut x = b.clone();
        x[i] ^= 1 << rng.below(8);
        if !judged(ctx, &[&h], &h, &x, rng.chance(1, 3), &format!("byte {} of large metadata altered", i - from)) {
            return;
        }
        if i > from && !judged(ctx, &[&h], &h, &b[..i], false, "large metadata cut") {
            return;
        }
    }
    ctx.count("large metadata", 1);
}

fn run(ctx: &mut Ctx) {
    ctx.phase("long", 64, 1000, long);
    ctx.phase("blocks", 64, 1500, blocks);
    ctx.phase("headers", 64, 1500, headers);
    places::run(ctx, 24, |_| true, places::blocks);
    interfaces::run(ctx, interfaces::What::Exchange, (24, 16, 8), interfaces::altered);
}
