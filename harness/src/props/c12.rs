use super::*;
use crate::ffi;
use crate::peer::R;
use crate::reference::*;
use cosmian_abe_gpsw::core::bilinear_map::{bls12_381::Bls12_381, BilinearMap};
use cosmian_bls12_381::{G1Affine, G1Projective, G2Affine, G2Projective, Gt, Scalar};
use serde_json::json;
use std::collections::HashMap;
use std::io::Read;
use std::os::fd::FromRawFd;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    workers: 8,
    rule: "every random component of repeated operations on the same inputs (secrets, key and cipher text components, messages, symmetric keys, nonces) gathered over operations, threads started together, processes and forks of a warmed-up process, through the native and the C functions: no value seen twice; frequency of each bit of scalars and nonces; exponents searched in small ranges; over transparent groups, the random exponents themselves are compared; distinct = components seen",
    floors: &[
        ("components compared", 10_000), ("threads", 64), ("processes", 16), ("forks", 8), ("wide keys", 10), ("nonces", 2000),
        ("bits tested", 1000), ("exponents searched", 20),
        ("values of long series", 250_000), ("Python: results", 100), ("WebAssembly: results", 40),
        ("transparent: random values in the open", 20000), ("transparent: values of long series", 200_000),
    ],
    assumptions: &["the operating system's generator is not itself repeating", REF],
};

/// What operations are made on
struct Bed {
    a: Auth,
    f: F,
    l: Vec<At>,
    key: Uk,
    pj: String,
    mb: Vec<u8>,
    sb: Vec<u8>,
    aj: String,
    access: String,
    /// rows of the key that the policy alone determines
    fixed: Vec<bool>,
}

fn bed(rng: &mut Rng) -> Result<Bed, String> {
    let p = Profile { axes: (2, 3), attrs: (2, 3), spare: (0, 2), rotations: (0, 2), plain: true };
    let w = gen_world(rng, &p);
    let a = Auth::new(w)?;
    bed_of(rng, a)
}

fn bed_of(rng: &mut Rng, a: Auth) -> Result<Bed, String> {
    let leaves = loop {
        let l = gen_leaves(rng, &a.w.m, 6);
        if l.len() > 1 {
            break l;
        }
    };
    let f = gen_tree(rng, &leaves, 6, 0);
    let key = a.key(&f)?;
    let l = gen_sat(rng, &a.w.m, &f);
    let mut l2 = l;
    l2.sort_unstable();
    l2.dedup();
    let fixed = determined(&key)?;
    Ok(Bed {
        pj: a.w.policy.to_string(),
        mb: enc(&a.mpk),
        sb: enc(&a.msk),
        aj: serde_json::to_string(&a.w.m.attrs_of(&l2)).unwrap(),
        access: serde_json::to_string(&a.w.m.access(&f)).unwrap(),
        a, f, l: l2, key, fixed,
    })
}

fn determined(k: &Uk) -> Result<Vec<bool>, String> {
    let r = RUk::parse(&enc(k)).ok_or("a key cannot be read")?;
    Ok(r.m.iter().map(|row| row.iter().all(|x| *x == row[0])).collect())
}

type Seen = Vec<(&'static str, Vec<u8>)>;

fn gts(v: &mut Seen, what: &'static str, g: &Gt) {
    v.push((what, g.to_compressed().to_vec()));
}

fn of_key(v: &mut Seen, what: &'static str, k: &[u8], fixed: &[bool]) -> Result<(), String> {
    let r = RUk::parse(k).ok_or("a key cannot be read")?;
    if r.d.len() != fixed.len() {
        return Err("keys for the same policy have different sizes".into());
    }
    for (d, f) in r.d.iter().zip(fixed) {
        if !f {
            v.push((what, d.to_compressed().to_vec()));
        }
    }
    Ok(())
}

fn of_ct(v: &mut Seen, ct: &[u8]) -> Result<(), String> {
    let r = RCt::parse(ct).ok_or("a cipher text cannot be read")?;
    for (i, e) in r.e.iter().enumerate() {
        // (an attribute may come twice in a list)
        if !r.gamma[..i].contains(&r.gamma[i]) {
            v.push(("component of a cipher text", e.to_compressed().to_vec()));
        }
    }
    gts(v, "masked message", &r.ep);
    Ok(())
}

fn of_header(v: &mut Seen, sk: Vec<u8>, h: &[u8]) -> Result<(), String> {
    let h = header_parse(h).ok_or("a header cannot be read")?;
    of_ct(v, &h.ct)?;
    v.push(("symmetric key", sk));
    if let Some((n, m)) = h.meta {
        v.push(("nonce", n));
        v.push(("encrypted metadata", m));
    }
    Ok(())
}

/// One round of all operations, always on the same inputs
fn gather(b: &Bed, v: &mut Seen, light: bool) -> Result<(), String> {
    let a = &b.a;
    let e = |e: cosmian_abe_gpsw::error::FormatErr| e.to_string();
    let g = Bls12_381;
    let attrs = a.w.m.attrs_of(&b.l);
    if !light {
        let (msk, mpk, mdk) = a.eng.generate_master_key(&a.w.policy).map_err(e)?;
        let (msk, mpk, mdk) = (enc(&msk), enc(&mpk), enc(&mdk));
        for s in msk[4..].chunks(32) {
            v.push(("secret", s.to_vec()));
        }
        for s in mpk[4..mpk.len() - 288].chunks(48) {
            v.push(("component of a public key", s.to_vec()));
        }
        v.push(("public target element", mpk[mpk.len() - 288..].to_vec()));
        for s in mdk[4..].chunks(96) {
            v.push(("component of a delegation key", s.to_vec()));
        }
        let (msk, _) = ffi::master_keys(&b.pj)?;
        for s in msk[4..].chunks(32) {
            v.push(("secret", s.to_vec()));
        }
        for s in g.gen_random_scalar_vector(5).map_err(e)? {
            v.push(("scalar", s.to_bytes().to_vec()));
        }
    }
    v.push(("scalar", g.gen_random_scalar().map_err(e)?.to_bytes().to_vec()));
    v.push(("message", enc(&g.gen_random_msg_in_gt().map_err(e)?)));
    let access = a.w.m.access(&b.f);
    of_key(v, "component of a user key", &enc(&a.eng.generate_user_key(&a.w.policy, &a.msk, &access).map_err(e)?), &b.fixed)?;
    let d = a.eng.delegate_user_key(&a.w.policy, &a.mdk, &b.key, &abe_policy::AccessPolicy::All).map_err(e)?;
    of_key(v, "component of a delegated key", &enc(&d), &b.fixed)?;
    let d = a.eng.delegate_user_key(&a.w.policy, &a.mdk, &b.key, &access).map_err(e)?;
    if determined(&d)? == b.fixed {
        of_key(v, "component of a delegated key", &enc(&d), &b.fixed)?;
    }
    of_key(v, "component of a user key", &ffi::user_key(&b.sb, &b.access, &b.pj)?, &b.fixed)?;
    let m = a.message()?;
    v.push(("message", enc(&m)));
    let fixed = Sch::default().msg_encode(b"same").map_err(e)?;
    of_ct(v, &enc(&a.eng.encrypt(&a.w.policy, &a.mpk, &attrs, &fixed).map_err(e)?))?;
    let (sk, esk) = a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &attrs, 32).map_err(e)?;
    of_ct(v, &esk)?;
    v.push(("symmetric key", sk));
    let meta: hy::Meta = (b"uid".to_vec(), Some(b"metadata".to_vec()));
    let (sk, h) = hy::encrypt_header(&a.w.policy, &a.mpk, &attrs, Some(&meta)).map_err(e)?;
    of_header(v, sk, &h)?;
    let (sk, h) = ffi::enc_header(&b.pj, &b.mb, &b.aj, &meta.0, b"metadata")?;
    of_header(v, sk, &h)?;
    let c = ffi::enc_create(&b.pj, &b.mb)?;
    for _ in 0..2 {
        let (sk, h) = ffi::enc_cached(c, &b.aj, &meta.0, b"metadata")?;
        of_header(v, sk, &h)?;
    }
    ffi::enc_destroy(c);
    for _ in 0..10 {
        for x in [hy::enc_block(&[7; 32], b"uid", 1, b"same data")?, ffi::enc_block(&[7; 32], b"uid", 1, b"same data")?] {
            v.push(("nonce", x[..12].to_vec()));
            v.push(("encrypted block", x[12..].to_vec()));
        }
    }
    Ok(())
}

fn unique(ctx: &mut Ctx, groups: &[(String, Seen)]) {
    let mut all: HashMap<&[u8], (&str, &str)> = HashMap::new();
    for (who, seen) in groups {
        for (what, x) in seen {
            ctx.count("components compared", 1);
            if *what == "nonce" {
                ctx.count("nonces", 1);
            }
            ctx.eval(Some(&hex::encode(&x[..x.len().min(32)])));
            if let Some((w, k)) = all.insert(x, (who, what)) {
                ctx.violation(
                    format!("the same bytes twice: {k} ({w}) and {what} ({who})"),
                    json!({"bytes": hex::encode(x)}),
                );
                return;
            }
        }
    }
}

/// `vmon fresh`: one round of operations in a new process. Reads the authority on
/// its standard input: policy and model come from the seed.
pub fn child(args: &[String]) -> i32 {
    let Some(seed) = args.first().and_then(|s| s.parse().ok()) else { return 2 };
    let mut buf = String::new();
    std::io::stdin().read_to_string(&mut buf).expect("stdin");
    let mut it = buf.lines().map(|l| hex::decode(l).expect("hex"));
    let b = match load(seed, &mut it) {
        Ok(b) => b,
        Err(e) => {
            println!("! {e}");
            return 0;
        }
    };
    let mut v = vec![];
    match gather(&b, &mut v, true) {
        Ok(()) => {
            for (k, x) in v {
                println!("{k}={}", hex::encode(x));
            }
        }
        Err(e) => println!("! {e}"),
    }
    0
}

fn load(seed: u64, it: &mut dyn Iterator<Item = Vec<u8>>) -> Result<Bed, String> {
    let mut rng = Rng::new(seed);
    let p = Profile { axes: (2, 3), attrs: (2, 3), spare: (0, 2), rotations: (0, 2), plain: true };
    let w = gen_world(&mut rng, &p);
    let e = |e: cosmian_abe_gpsw::error::FormatErr| e.to_string();
    let mut next = || it.next().ok_or("missing input".to_string());
    let a = Auth { w, eng: Eng::new(), msk: dec(&next()?).map_err(e)?, mpk: dec(&next()?).map_err(e)?, mdk: dec(&next()?).map_err(e)? };
    let key: Uk = dec(&next()?).map_err(e)?;
    let mut b = bed_of(&mut rng, a)?;
    b.fixed = determined(&key)?;
    b.key = key;
    Ok(b)
}

const LABELS: [&str; 16] = [
    "secret", "component of a public key", "public target element", "component of a delegation key", "scalar",
    "component of a user key", "component of a delegated key", "message", "component of a cipher text", "masked message",
    "symmetric key", "nonce", "encrypted metadata", "encrypted block", "?", "?",
];
fn label(s: &str) -> &'static str {
    LABELS.iter().find(|l| **l == s).copied().unwrap_or("?")
}

fn parse_lines(s: &str) -> Result<Seen, String> {
    let mut v = vec![];
    for l in s.lines() {
        if let Some(e) = l.strip_prefix("! ") {
            return Err(e.to_string());
        }
        let (k, x) = l.split_once('=').ok_or("malformed output")?;
        v.push((label(k), hex::decode(x).map_err(|e| e.to_string())?));
    }
    if v.is_empty() {
        return Err("no output".into());
    }
    Ok(v)
}

/// Frequency of each bit among the samples, far from certain chance only
fn bits(ctx: &mut Ctx, what: &str, samples: &[Vec<u8>], from: usize, to: usize) {
    let n = samples.len() as f64;
    for bit in from..to {
        let ones = samples.iter().filter(|s| s[bit / 8] >> (bit % 8) & 1 == 1).count() as f64;
        let z = (ones - n / 2.0) / (n / 4.0).sqrt();
        ctx.count("bits tested", 1);
        ctx.eval(None);
        if z.abs() > 8.0 {
            ctx.violation(format!("{what}: bit {bit} is set in {ones} of {n} values"), json!({}));
            return;
        }
        // two successive bits, and the same bit in successive values
        let same = samples.iter().filter(|s| (s[bit / 8] >> (bit % 8) & 1) == (s[((bit + 1) % to) / 8] >> ((bit + 1) % 8) & 1)).count() as f64;
        let next = samples.windows(2).filter(|w| (w[0][bit / 8] ^ w[1][bit / 8]) >> (bit % 8) & 1 == 0).count() as f64;
        for (k, x) in [("the next bit", same), ("the same bit of the next value", next)] {
            if ((x - n / 2.0) / (n / 4.0).sqrt()).abs() > 8.0 && to > from + 8 && bit + 1 < to {
                ctx.violation(format!("{what}: bit {bit} equals {k} in {x} of {n} values"), json!({}));
                return;
            }
        }
    }
}

/// Searches x = base^k for |k| < 2^(2·half), baby steps and giant steps
fn small_g1(base: &G1Projective, table: &HashMap<Vec<u8>, u32>, x: &G1Projective, half: u32) -> Option<u64> {
    let step = -(*base * Scalar::from(1u64 << half));
    let mut cur = *x;
    let mut pts = vec![];
    for _ in 0..1u32 << half {
        pts.push(cur);
        cur += step;
    }
    let mut aff = vec![G1Affine::identity(); pts.len()];
    cosmian_bls12_381::G1Projective::batch_normalize(&pts, &mut aff);
    for (j, p) in aff.iter().enumerate() {
        if let Some(i) = table.get(&p.to_compressed()[..]) {
            return Some(u64::from(*i) + ((j as u64) << half));
        }
    }
    None
}

fn g1_table(base: &G1Projective, half: u32) -> HashMap<Vec<u8>, u32> {
    let mut pts = vec![];
    let mut cur = G1Projective::identity();
    for _ in 0..1u32 << half {
        pts.push(cur);
        cur += base;
    }
    let mut aff = vec![G1Affine::identity(); pts.len()];
    G1Projective::batch_normalize(&pts, &mut aff);
    aff.iter().enumerate().map(|(i, p)| (p.to_compressed().to_vec(), i as u32)).collect()
}

fn small_gt(x: &Gt, half: u32) -> Option<u64> {
    let g = gt_gen();
    let mut table = HashMap::new();
    let mut cur = Gt::identity();
    for i in 0..1u64 << half {
        table.insert(cur.to_string(), i);
        cur = cur + g;
    }
    let step = -(g * Scalar::from(1u64 << half));
    let mut cur = *x;
    for j in 0..1u64 << half {
        if let Some(i) = table.get(&cur.to_string()) {
            return Some(i + (j << half));
        }
        cur = cur + step;
    }
    None
}

/// Large keys, cipher texts and vectors: no component is that of another
fn wide(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.range(66, 130);
    let a = must!(ctx, Auth::new(flat(n)), "setup");
    let mut leaves = a.w.m.all();
    rng.shuffle(&mut leaves);
    let (bias, skew) = (*rng.pick(&[10, 10, 7]), rng.below(4));
    let f = gen_tree(rng, &leaves, bias, skew);
    let mut seen = vec![];
    let mut v: Seen = vec![];
    for s in enc(&a.msk)[4..].chunks(32) {
        v.push(("secret", s.to_vec()));
    }
    let p = enc(&a.mpk);
    for s in p[4..p.len() - 288].chunks(48) {
        v.push(("component of a public key", s.to_vec()));
    }
    for s in enc(&a.mdk)[4..].chunks(96) {
        v.push(("component of a delegation key", s.to_vec()));
    }
    seen.push(("authority".into(), v));
    let key = must!(ctx, a.key(&f), "key");
    let fixed = must!(ctx, determined(&key), "key");
    let mut v = vec![];
    must!(ctx, of_key(&mut v, "component of a user key", &enc(&key), &fixed), "key");
    seen.push(("key".into(), v));
    for i in 0..2 {
        let mut v = vec![];
        let k = must!(ctx, a.key(&f), "key");
        must!(ctx, of_key(&mut v, "component of a user key", &enc(&k), &fixed), "key");
        let d = must!(ctx, a.eng.delegate_user_key(&a.w.policy, &a.mdk, &key, &abe_policy::AccessPolicy::All), "delegation");
        must!(ctx, of_key(&mut v, "component of a delegated key", &enc(&d), &fixed), "key");
        let m = must!(ctx, Sch::default().msg_encode(b"same"), "message");
        let ct = must!(ctx, a.encrypt(&leaves, &m), "encrypt");
        must!(ctx, of_ct(&mut v, &enc(&ct)), "cipher text");
        let (sk, esk) = must!(ctx, a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&leaves), 300), "symmetric key");
        must!(ctx, of_ct(&mut v, &esk), "cipher text");
        // the parts of a long key are not the same either
        v.extend(sk.chunks_exact(32).map(|x| ("symmetric key", x.to_vec())));
        seen.push((format!("round {i}"), v));
    }
    let size = rng.range(1000, 6000);
    let x = must!(ctx, Bls12_381.gen_random_scalar_vector(size), "scalars");
    seen.push(("vector".into(), x.iter().map(|s| ("scalar", s.to_bytes().to_vec())).collect()));
    ctx.count("wide keys", 1);
    unique(ctx, &seen);
    // several large sets of secrets: nor does any come twice in all of them
    if ctx.case() % 4 == 0 {
        let mut seen = vec![];
        for i in 0..4 {
            ctx.journal("many scalars");
            let x = must!(ctx, Bls12_381.gen_random_scalar_vector(rng.range(9000, 20_000)), "scalars");
            seen.push((format!("vector {i}"), x.iter().map(|s| ("scalar", s.to_bytes().to_vec())).collect()));
        }
        let a = must!(ctx, Auth::new(flat(rng.range(1100, 1300))), "setup");
        seen.push(("authority".into(), enc(&a.msk)[4..].chunks(32).map(|s| ("secret", s.to_vec())).collect()));
        ctx.count("large sets of scalars", 5);
        unique(ctx, &seen);
    }
}

fn bytes(r: R) -> Vec<Vec<u8>> {
    match r {
        R::B(b) => vec![b],
        R::L(l) => l.into_iter().flat_map(bytes).collect(),
        _ => vec![],
    }
}

/// What is random in the result of a function of the Python or WebAssembly module
fn of_module(v: &mut Seen, f: &str, out: &[Vec<u8>]) -> Result<(), String> {
    let masters = |v: &mut Seen, msk: &[u8], mpk: &[u8]| {
        for s in msk[4..].chunks(32) {
            v.push(("secret", s.to_vec()));
        }
        for s in mpk[4..mpk.len() - 288].chunks(48) {
            v.push(("component of a public key", s.to_vec()));
        }
    };
    let block = |v: &mut Seen, b: &[u8]| {
        v.push(("nonce", b[..12].to_vec()));
        v.push(("encrypted block", b[12..].to_vec()));
    };
    let size = |b: &[u8]| Some(u32::from_be_bytes(b.get(..4)?.try_into().ok()?) as usize);
    match (f, out) {
        ("generate_master_keys", [msk, mpk, mdk]) if msk.len() > 4 && mpk.len() > 292 && mdk.len() > 4 => {
            masters(v, msk, mpk);
            for s in mdk[4..].chunks(96) {
                v.push(("component of a delegation key", s.to_vec()));
            }
        }
        ("webassembly_generate_master_keys", [b]) => {
            let n = size(b).filter(|n| *n > 4 && b.len() > n + 296).ok_or("master keys cannot be read")?;
            masters(v, &b[4..4 + n], &b[4 + n..]);
        }
        ("generate_user_private_key" | "webassembly_generate_user_private_key", [k]) => of_key(v, "component of a user key", k, &fixed_rows(k)?)?,
        ("generate_delegated_key", [k]) => of_key(v, "component of a delegated key", k, &fixed_rows(k)?)?,
        ("encrypt_hybrid_header", [k, h]) => of_header(v, k.clone(), h)?,
        ("webassembly_encrypt_hybrid_header" | "webassembly_encrypt_hybrid_header_using_cache", [h]) => {
            let h = hy::EncryptedHeader::<hy::Aes>::try_from_bytes(h).map_err(|e| e.to_string())?;
            of_header(v, hy::key_bytes(&h.symmetric_key), &h.encrypted_header_bytes)?;
        }
        ("encrypt_hybrid_block" | "webassembly_encrypt_hybrid_block", [b]) if b.len() > 12 => block(v, b),
        ("encrypt", [b]) => {
            let n = size(b).filter(|n| b.len() > n + 16).ok_or("a complete encryption cannot be read")?;
            let h = header_parse(&b[4..4 + n]).ok_or("a header cannot be read")?;
            of_ct(v, &h.ct)?;
            if let Some((x, m)) = h.meta {
                v.push(("nonce", x));
                v.push(("encrypted metadata", m));
            }
            block(v, &b[4 + n..]);
        }
        _ => return Err(format!("{f}: {} results", out.len())),
    }
    Ok(())
}

fn fixed_rows(k: &[u8]) -> Result<Vec<bool>, String> {
    determined(&dec::<Uk>(k).map_err(|e| e.to_string())?)
}

/// The functions of the Python and WebAssembly modules, again and again on the
/// same inputs, in two processes each
fn modules(ctx: &mut Ctx, rng: &mut Rng) {
    let python = ctx.case() % 2 == 0;
    let Some(var) = [["VMON_WASM", "VMON_PYTHON"][python as usize]].into_iter().find(|v| std::env::var_os(v).is_some()) else { return };
    let mut seen = vec![];
    let calls = if python { must!(ctx, super::c16::valid(rng), "setup") } else { vec![] };
    // the same inputs in both processes
    let mut inner = rng.clone();
    for process in 0..2 {
        let mut p = super::c16::start(var);
        let calls = if python { calls.clone() } else { must!(ctx, super::c17::valid(&mut p, &mut inner), "setup").0 };
        let mut v = vec![];
        for _ in 0..if python { 12 } else { 5 } {
            for c in &calls {
                if c.f.contains("decrypt") || c.f.contains("cache") && !c.f.contains("using") || !(c.f.contains("encrypt") || c.f.contains("key")) || c.f.contains("get_") {
                    continue;
                }
                ctx.journal(c.f);
                let r = match p.call(c.f, &c.a) {
                    Ok(r) => bytes(r),
                    Err(_) => {
                        // the business of C16 and C17
                        ctx.count("failures of modules", 1);
                        return;
                    }
                };
                must!(ctx, of_module(&mut v, c.f, &r), "result of a module");
                ctx.count(if python { "Python: results" } else { "WebAssembly: results" }, 1);
            }
        }
        seen.push((format!("{} {process}", if python { "Python" } else { "WebAssembly" }), v));
    }
    unique(ctx, &seen);
}

/// Long series of the same operation in one thread: a counter or a table that
/// comes back to its beginning shows
fn series(ctx: &mut Ctx, rng: &mut Rng) {
    let g = Bls12_381;
    let w = flat(2);
    let a = must!(ctx, Auth::new(w), "setup");
    let attrs = a.w.m.attrs_of(&[(0, 0)]);
    let (pj, mb) = (a.w.policy.to_string(), enc(&a.mpk));
    let aj = serde_json::to_string(&attrs).unwrap();
    let f = F::And(F::Attr((0, 0)).into(), F::Attr((0, 1)).into());
    let key = must!(ctx, a.key(&f), "key");
    let c = must!(ctx, ffi::enc_create(&pj, &mb), "cache");
    let sk = rng.bytes(32);
    let uid = rng.bytes(8);
    let (kind, deep) = (ctx.case() % 8, ctx.n(1, 4) as usize);
    let first = |k: &[u8]| RUk::parse(k).map(|k| k.d[0].to_compressed().to_vec()).ok_or("a key cannot be read".to_string());
    let e = |e: cosmian_abe_gpsw::error::FormatErr| e.to_string();
    // each gives the random parts of one operation
    type Make<'a> = Box<dyn Fn(usize) -> Result<Seen, String> + 'a>;
    let of_header = |k, h: &[u8]| {
        let mut v = vec![];
        of_header(&mut v, k, h).map(|()| v)
    };
    let (n, make): (usize, Make) = match kind {
        0 => (150_000, Box::new(|_| Ok(vec![("nonce", hy::enc_block(&sk, &uid, 7, b"data")?[..12].to_vec())]))),
        1 => (150_000, Box::new(|_| Ok(vec![("nonce", ffi::enc_block(&sk, &uid, 7, b"data")?[..12].to_vec())]))),
        2 => (100_000, Box::new(|_| Ok(vec![("scalar", g.gen_random_scalar().map_err(e)?.to_bytes().to_vec())]))),
        3 => (600, Box::new(|_| {
            let (k, h) = ffi::enc_cached(c, &aj, b"uid", b"data")?;
            of_header(k, &h)
        })),
        4 => (600, Box::new(|_| {
            let (k, h) = hy::encrypt_header(&a.w.policy, &a.mpk, &attrs, Some(&(vec![1], None))).map_err(e)?;
            of_header(k, &h)
        })),
        5 => (1000, Box::new(|_| Ok(vec![("component of a user key", first(&enc(&a.key(&f)?))?)]))),
        6 => (1000, Box::new(|_| {
            let d = a.eng.delegate_user_key(&a.w.policy, &a.mdk, &key, &abe_policy::AccessPolicy::All).map_err(e)?;
            Ok(vec![("component of a delegated key", first(&enc(&d))?)])
        })),
        _ => (800, Box::new(|_| {
            let (k, x) = a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &attrs, 32).map_err(e)?;
            let mut v = vec![("symmetric key", k)];
            of_ct(&mut v, &x)?;
            Ok(v)
        })),
    };
    let mut seen = std::collections::HashSet::new();
    for i in 0..n * deep {
        if i % 64 == 0 {
            ctx.journal("series");
        }
        for (what, x) in must!(ctx, make(i), "operation of a series") {
            ctx.count("values of long series", 1);
            if !seen.insert(x) {
                ctx.violation(format!("the same {what} twice in {} operations in a row", i + 1), json!({"kind": kind}));
                return;
            }
        }
    }
    ctx.eval(Some(&format!("series {kind} {n}")));
    drop(make);
    ffi::enc_destroy(c);
}

#[cfg(feature = "clear")]
fn clear_series(ctx: &mut Ctx, _: &mut Rng) {
    use crate::clear::{self, Clr};
    let a = must!(ctx, Auth::<Clr>::make(flat(2)), "setup");
    let attrs = a.w.m.attrs_of(&[(0, 0)]);
    let n = ctx.n(70_000, 300_000);
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        if i % 1000 == 0 {
            ctx.journal("series");
        }
        let mut v = vec![];
        if ctx.case() % 2 == 0 {
            let h = must!(ctx, hy::encrypt_hybrid_header::<Clr, hy::Aes>(&a.w.policy, &a.mpk, &attrs, Some(hy::metadata(&(vec![1], None)))), "header");
            let b = &h.encrypted_header_bytes;
            let x = b.get(..4).map(|x| u32::from_be_bytes(x.try_into().unwrap()) as usize).filter(|x| b.len() > x + 16);
            let Some(x) = x else {
                ctx.violation("a header cannot be read", json!({}));
                return;
            };
            let c = must!(ctx, clear::cipher(&b[4..4 + x]).ok_or("format"), "cipher text");
            v.push(("exponent", c.e[0].to_bytes().to_vec()));
            v.push(("symmetric key", hy::key_bytes(&h.symmetric_key)));
            v.push(("nonce", b[4 + x..16 + x].to_vec()));
        } else {
            let k = must!(ctx, a.key(&F::And(F::Attr((0, 0)).into(), F::Attr((0, 1)).into())), "key");
            let k = must!(ctx, clear::key(&enc(&k)).ok_or("format"), "key");
            v.push(("share of a key", k.d[0].to_bytes().to_vec()));
            let m = must!(ctx, a.message(), "message");
            v.push(("message", enc(&m)));
        }
        for (what, x) in v {
            ctx.count("transparent: values of long series", 1);
            if !seen.insert(x) {
                ctx.violation(format!("the same {what} twice in {} operations in a row", i + 1), json!({}));
                return;
            }
        }
    }
    ctx.eval(Some(&format!("transparent series {} {n}", ctx.case())));
}

fn run(ctx: &mut Ctx) {
    #[cfg(feature = "clear")]
    ctx.phase("transparent-series", 2, 8, clear_series);
    ctx.phase("series", 8, 24, series);
    ctx.phase("modules", 4, 24, modules);
    #[cfg(feature = "clear")]
    super::transparent::random_values(ctx, bits);
    ctx.phase("wide", 12, 150, wide);
    ctx.phase("operations", 32, 400, |ctx, rng| {
        let b = must!(ctx, bed(rng), "setup");
        let mut seen = vec![];
        for i in 0..4 {
            let mut v = vec![];
            must!(ctx, gather(&b, &mut v, false), "operations");
            seen.push((format!("round {i}"), v));
        }
        // the keys operations start from
        let mut v = vec![];
        must!(ctx, of_key(&mut v, "component of a user key", &enc(&b.key), &b.fixed), "key");
        for s in b.sb[4..].chunks(32) {
            v.push(("secret", s.to_vec()));
        }
        seen.push(("setup".into(), v));
        unique(ctx, &seen);
        ctx.sample(|| format!("{} formula {}: {} components", describe(&b.a.w), b.f.shape(), seen.iter().map(|s| s.1.len()).sum::<usize>()));
    });
    ctx.phase("threads", 8, 80, |ctx, rng| {
        let b = must!(ctx, bed(rng), "setup");
        let n = 12;
        let gate = std::sync::Barrier::new(n);
        let out: Vec<Result<Seen, String>> = std::thread::scope(|s| {
            let h: Vec<_> = (0..n)
                .map(|_| {
                    s.spawn(|| {
                        gate.wait();
                        let mut v = vec![];
                        gather(&b, &mut v, true).map(|()| v)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        let mut seen = vec![];
        for (i, o) in out.into_iter().enumerate() {
            seen.push((format!("thread {i}"), must!(ctx, o, "operations in a thread")));
            ctx.count("threads", 1);
        }
        unique(ctx, &seen);
    });
    ctx.phase("processes", 8, 60, |ctx, rng| {
        let seed = rng.u64();
        let mut r = Rng::new(seed);
        let b = must!(ctx, bed(&mut r), "setup");
        let input = [&b.sb, &b.mb, &enc(&b.a.mdk), &enc(&b.key)].map(hex::encode).join("\n");
        let kids: Vec<_> = (0..4)
            .map(|_| {
                let mut c = std::process::Command::new(std::env::current_exe().expect("exe"))
                    .args(["fresh", &seed.to_string()])
                    .stdin(std::process::Stdio::piped())
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .expect("spawn");
                std::io::Write::write_all(&mut c.stdin.take().unwrap(), input.as_bytes()).expect("pipe");
                c
            })
            .collect();
        let mut seen = vec![];
        let mut v = vec![];
        must!(ctx, gather(&b, &mut v, true), "operations");
        seen.push(("parent".to_string(), v));
        for (i, k) in kids.into_iter().enumerate() {
            let o = k.wait_with_output().expect("child");
            let v = must!(ctx, parse_lines(&String::from_utf8_lossy(&o.stdout)), "operations in a process");
            seen.push((format!("process {i}"), v));
            ctx.count("processes", 1);
        }
        unique(ctx, &seen);
    });
    ctx.phase("forks", 8, 60, |ctx, rng| {
        // processes that are copies of one which already made these operations
        let b = must!(ctx, bed(rng), "setup");
        let mut v = vec![];
        must!(ctx, gather(&b, &mut v, true), "operations");
        let mut seen = vec![("parent, before".to_string(), v)];
        let mut kids = vec![];
        for _ in 0..3 {
            let mut fds = [0; 2];
            assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                let mut out = String::new();
                let mut v = vec![];
                match gather(&b, &mut v, true) {
                    Ok(()) => {
                        for (k, x) in v {
                            out.push_str(&format!("{k}={}\n", hex::encode(x)));
                        }
                    }
                    Err(e) => out = format!("! {e}\n"),
                }
                let bytes = out.as_bytes();
                let mut at = 0;
                while at < bytes.len() {
                    let n = unsafe { libc::write(fds[1], bytes[at..].as_ptr().cast(), bytes.len() - at) };
                    if n <= 0 {
                        break;
                    }
                    at += n as usize;
                }
                unsafe { libc::_exit(0) };
            }
            unsafe { libc::close(fds[1]) };
            kids.push((pid, fds[0]));
        }
        let mut v = vec![];
        must!(ctx, gather(&b, &mut v, true), "operations");
        seen.push(("parent, after".to_string(), v));
        for (i, (pid, fd)) in kids.into_iter().enumerate() {
            let mut s = String::new();
            unsafe { std::fs::File::from_raw_fd(fd) }.read_to_string(&mut s).expect("pipe");
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            let v = must!(ctx, parse_lines(&s), "operations in a fork");
            seen.push((format!("fork {i}"), v));
            ctx.count("forks", 1);
        }
        unique(ctx, &seen);
    });
    ctx.phase("spread", 8, 64, |ctx, rng| {
        let g = Bls12_381;
        let n = 4000;
        let mut sets: Vec<(&str, Vec<Vec<u8>>, usize, usize)> = vec![];
        sets.push(("scalar", must!(ctx, (0..n).map(|_| g.gen_random_scalar().map(|s| s.to_bytes().to_vec())).collect::<Result<_, _>>(), "scalars"), 0, 248));
        sets.push(("scalar of a vector", must!(ctx, g.gen_random_scalar_vector(n), "scalars").iter().map(|s| s.to_bytes().to_vec()).collect(), 0, 248));
        let mut w = World::new(400);
        w.add_axis("a", &["b".into()], false);
        let pj = w.policy.to_string();
        let mut secrets = vec![];
        let mut masters = vec![];
        for i in 0..3 {
            let msk = if i == 0 {
                must!(ctx, ffi::master_keys(&pj), "master keys").0
            } else {
                enc(&must!(ctx, Eng::new().generate_master_key(&w.policy), "master keys").0)
            };
            let c: Vec<Vec<u8>> = msk[4..].chunks(32).map(<[u8]>::to_vec).collect();
            masters.extend(c.last().cloned());
            secrets.extend(c);
        }
        sets.push(("secret of a private key", secrets, 0, 248));
        let key = rng.bytes(32);
        let nonces = |f: &dyn Fn(usize) -> Result<Vec<u8>, String>| (0..n).map(|i| f(i).map(|b| b[..12].to_vec())).collect::<Result<Vec<_>, _>>();
        sets.push(("nonce of a block", must!(ctx, nonces(&|_| hy::enc_block(&key, b"u", 0, b"d")), "blocks"), 0, 96));
        sets.push(("nonce of a block of the C function", must!(ctx, nonces(&|i| ffi::enc_block(&key, b"u", i as i32, b"d")), "blocks"), 0, 96));
        for (what, s, from, to) in &sets {
            let mut d: Vec<_> = s.clone();
            d.sort();
            d.dedup();
            if d.len() != s.len() {
                ctx.violation(format!("{what}: the same value twice in {}", s.len()), json!({}));
                return;
            }
            bits(ctx, what, s, *from, *to);
            if ctx.violated() {
                return;
            }
            if *to == 248 {
                // the range is that of the group order, 0x73ed...
                let max = s.iter().map(|x| x[31]).max().unwrap();
                let min = s.iter().map(|x| x[31]).min().unwrap();
                if max < 0x70 || min > 3 {
                    ctx.violation(format!("{what}: leading bytes from {min:x} to {max:x} only"), json!({}));
                    return;
                }
            }
        }
        // nonces and keys of headers
        let a = must!(ctx, Auth::new(w), "setup");
        let attrs = a.w.m.attrs_of(&[(0, 0)]);
        let (mut ns, mut ks) = (vec![], vec![]);
        for _ in 0..400 {
            let (k, h) = must!(ctx, hy::encrypt_header(&a.w.policy, &a.mpk, &attrs, Some(&(vec![1], None))), "header");
            let h = header_parse(&h).and_then(|h| h.meta);
            let Some((n, _)) = h else {
                ctx.violation("a header cannot be read", json!({}));
                return;
            };
            ns.push(n);
            ks.push(k);
        }
        bits(ctx, "nonce of a header", &ns, 0, 96);
        bits(ctx, "symmetric key of a header", &ks, 0, 256);
    });
    ctx.phase("exponents", 8, 32, |ctx, rng| {
        // exponents that cannot be seen, searched below 2^32 (or 2^24 in the target group)
        let b = must!(ctx, bed(rng), "setup");
        let msk = RMsk::parse(&b.sb).expect("private key");
        let base = G1Projective::generator();
        let table = g1_table(&base, 16);
        for round in 0..4 {
            let msg = must!(ctx, b.a.message(), "message");
            let ct = if round % 2 == 0 {
                enc(&must!(ctx, b.a.encrypt(&b.l, &msg), "encrypt"))
            } else {
                must!(ctx, b.a.eng.generate_symmetric_key(&b.a.w.policy, &b.a.mpk, &b.a.w.m.attrs_of(&b.l), 32), "symmetric key").1
            };
            let Some(c) = RCt::parse(&ct) else {
                ctx.violation("a cipher text cannot be read", json!({}));
                return;
            };
            let inv = msk.t[c.gamma[0] as usize].invert().unwrap();
            let x = G1Projective::from(c.e[0]) * inv;
            if let Some(k) = small_g1(&base, &table, &x, 16) {
                ctx.violation(format!("the exponent of a cipher text is {k}"), json!({"ciphertext": hex::encode(&ct)}));
                return;
            }
            if let Some(k) = small_g1(&base, &table, &-x, 16) {
                ctx.violation(format!("the exponent of a cipher text is -{k}"), json!({"ciphertext": hex::encode(&ct)}));
                return;
            }
            ctx.count("exponents searched", 2);
            ctx.eval(Some(&hex::encode(&ct[..64])));
        }
        // differences of the shares of two keys for the same policy
        for round in 0..3 {
            let k1 = RUk::parse(&enc(&b.key));
            let k2 = match round {
                0 => b.a.key(&b.f),
                _ => b.a.eng.delegate_user_key(&b.a.w.policy, &b.a.mdk, &b.key, &abe_policy::AccessPolicy::All).map_err(|e| e.to_string()),
            };
            let (Some(k1), Some(k2)) = (k1, RUk::parse(&enc(&must!(ctx, k2, "key")))) else {
                ctx.violation("a key cannot be read", json!({}));
                return;
            };
            let Some(i) = (0..k1.d.len()).find(|i| !b.fixed[*i]) else { break };
            let t = msk.t[k1.attrs[i] as usize];
            let x = (G2Projective::from(k1.d[i]) - G2Projective::from(k2.d[i])) * t;
            let base = G2Projective::generator();
            let mut cur = G2Projective::identity();
            let mut pts = vec![];
            for _ in 0..1 << 10 {
                pts.push(cur);
                cur += base;
            }
            let mut aff = vec![G2Affine::identity(); pts.len()];
            G2Projective::batch_normalize(&pts, &mut aff);
            let table: HashMap<Vec<u8>, usize> = aff.iter().enumerate().map(|(i, p)| (p.to_compressed().to_vec(), i)).collect();
            for x in [x, -x] {
                let mut cur = x;
                let mut pts = vec![];
                for _ in 0..1 << 10 {
                    pts.push(cur);
                    cur += -(base * Scalar::from(1u64 << 10));
                }
                let mut aff = vec![G2Affine::identity(); pts.len()];
                G2Projective::batch_normalize(&pts, &mut aff);
                if let Some(p) = aff.iter().position(|p| table.contains_key(&p.to_compressed()[..])) {
                    ctx.violation(format!("the shares of two keys differ by a small number ({p} × 1024)"), json!({}));
                    return;
                }
            }
            ctx.count("exponents searched", 2);
            ctx.eval(None);
        }
        let m = must!(ctx, b.a.message(), "message");
        let m = Cur::new(&enc(&m)).gt().expect("message");
        if let Some(k) = small_gt(&m, 12) {
            ctx.violation(format!("a random message is the generator to the power {k}"), json!({}));
        }
        ctx.count("exponents searched", 1);
    });
}
