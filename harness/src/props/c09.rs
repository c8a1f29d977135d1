use super::*;
use crate::reference::*;
use abe_policy::{AccessPolicy, Attribute, Policy};
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    workers: 8,
    rule: "every object of a corpus recorded with the released version (golden/corpus.json) is read, written again and decrypted with every key; random authorities, keys, cipher texts, headers, symmetric keys and blocks go both ways between the library and the reference implementation; distinct = (direction, operation, policy, formula, list)",
    floors: &[
        ("recorded objects read", 120), ("recorded cipher texts and keys tried", 300), ("recorded decryptions", 100),
        ("recorded blocks", 40), ("reference to library", 300), ("library to reference", 300), ("refusals agreed", 50),
    ],
    assumptions: &[MODEL, REF, "the corpus was written once by the code at the base commit of this study (tools/golden.sh)"],
};

const CORPUS: &str = include_str!("../../../golden/corpus.json");

fn hx(b: &[u8]) -> Value {
    json!(hex::encode(b))
}
fn attrs_json(a: &[Attribute]) -> Value {
    json!(a.iter().map(|a| [&a.axis, &a.name]).collect::<Vec<_>>())
}

/// Records the corpus: to be run with the released version only
pub fn golden(out: &str) -> i32 {
    let mut rng = Rng::new(20220901);
    let mut scenarios = vec![];
    let hier = |rng: &mut Rng, p: &Profile| loop {
        let w = gen_world(rng, p);
        if w.room() > 0 {
            return w;
        }
    };
    let tiny = Profile { axes: (1, 2), attrs: (1, 3), spare: (1, 2), rotations: (0, 1), plain: true };
    let profiles = [&tiny, &tiny, &SMALL, &SMALL, &SMALL, &SMALL, &MEDIUM, &MEDIUM, &MEDIUM, &tiny];
    for p in profiles {
        let w = hier(&mut rng, p);
        let a = Auth::new(w).expect("setup");
        let m = &a.w.m;
        let mut keys: Vec<(String, String, Uk, V)> = vec![];
        for i in 0..3 {
            let f = gen_formula(&mut rng, m, 6);
            let Ok(k) = a.key(&f) else { continue };
            let access = serde_json::to_string(&m.access(&f)).unwrap();
            if let Ok(d) = a.eng.delegate_user_key(&a.w.policy, &a.mdk, &k, &AccessPolicy::All) {
                if i == 0 {
                    keys.push(("delegated".into(), access.clone(), d, m.snapshot(&f)));
                }
            }
            keys.push(("user".into(), access, k, m.snapshot(&f)));
        }
        if let Ok(k) = a.eng.generate_user_key(&a.w.policy, &a.msk, &AccessPolicy::All) {
            keys.push(("all".into(), serde_json::to_string(&AccessPolicy::All).unwrap(), k, m.snapshot_all()));
        }
        let mut cts = vec![];
        let mut headers = vec![];
        let mut blocks = vec![];
        for i in 0..4 {
            let f = gen_formula(&mut rng, m, 6);
            let l = if i % 2 == 0 { gen_sat(&mut rng, m, &f) } else { gen_unsat(&mut rng, m, &f) };
            if l.is_empty() {
                continue;
            }
            let mut l = l;
            l.sort();
            l.dedup();
            let attrs = m.attrs_of(&l);
            let vals = m.currents(&l);
            let opens: Vec<bool> = keys.iter().map(|k| k.3.eval(&vals)).collect();
            let msg = if i == 3 { Sch::default().msg_encode(b"recorded").expect("msg") } else { a.message().expect("message") };
            let ct = a.encrypt(&l, &msg).expect("encrypt");
            for (k, o) in keys.iter().zip(&opens) {
                let r = a.eng.decrypt(&ct, &k.2);
                assert_eq!(matches!(r, Ok(Some(m)) if m == msg), *o, "the released version disagrees with the model");
            }
            let gamma: Vec<u32> = vals.iter().copied().collect();
            cts.push(json!({"attributes": attrs_json(&attrs), "values": gamma, "message": hx(&enc(&msg)), "ciphertext": hx(&enc(&ct)), "opens": opens}));
            let n = *rng.pick(&[1usize, 16, 32, 33, 64, 150]);
            let (sk, esk) = a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &attrs, n).expect("symmetric key");
            headers.push(json!({"kind": "symmetric", "attributes": attrs_json(&attrs), "key": hx(&sk), "bytes": hx(&esk), "opens": opens}));
            let uid_len = rng.below(20);
            let meta: Option<hy::Meta> = match i {
                0 => None,
                1 => Some((rng.bytes(uid_len + 1), None)),
                2 => Some((rng.bytes(uid_len + 1), Some(rng.bytes(30)))),
                _ => Some((vec![], Some(rng.bytes(5)))),
            };
            let (k, h) = hy::encrypt_header(&a.w.policy, &a.mpk, &attrs, meta.as_ref()).expect("header");
            let e = hy::expected(meta.as_ref());
            headers.push(json!({"kind": "header", "attributes": attrs_json(&attrs), "key": hx(&k), "bytes": hx(&h), "uid": hx(&e.0),
                "additional": e.1.map(hex::encode), "opens": opens}));
            for (n, size) in [(0usize, 1usize), (1, 15), (255, 16), (256, 100), (70_000, 300)] {
                let size = size + rng.below(10);
                let d = rng.bytes(size);
                let b = hy::enc_block(&k, &e.0, n, &d).expect("block");
                blocks.push(json!({"key": hx(&k), "uid": hx(&e.0), "number": n, "data": hx(&d), "block": hx(&b)}));
            }
        }
        scenarios.push(json!({
            "policy": a.w.policy.to_string(), "msk": hx(&enc(&a.msk)), "mpk": hx(&enc(&a.mpk)), "mdk": hx(&enc(&a.mdk)),
            "keys": keys.iter().map(|k| json!({"kind": k.0, "access": k.1, "key": hx(&enc(&k.2))})).collect::<Vec<_>>(),
            "ciphertexts": cts, "headers": headers, "blocks": blocks,
        }));
    }
    std::fs::write(out, serde_json::to_string_pretty(&scenarios).unwrap()).expect("corpus");
    0
}

fn b(v: &Value) -> Vec<u8> {
    hex::decode(v.as_str().expect("corpus")).expect("corpus")
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().expect("corpus")
}
fn attributes(v: &Value) -> Vec<Attribute> {
    arr(v).iter().map(|x| Attribute::new(x[0].as_str().unwrap(), x[1].as_str().unwrap())).collect()
}

fn read<T: cosmian_abe_gpsw::core::gpsw::AsBytes>(ctx: &mut Ctx, bytes: &[u8], what: &str) -> Option<T> {
    ctx.count("recorded objects read", 1);
    match T::try_from_bytes(bytes) {
        Ok(t) => match t.try_into_bytes() {
            Ok(x) if x == bytes && t.len_bytes() == x.len() => Some(t),
            _ => {
                ctx.violation(format!("recorded {what} is not written as it was read"), json!({"bytes": hex::encode(bytes)}));
                None
            }
        },
        Err(e) => {
            ctx.violation(format!("recorded {what} cannot be read: {e}"), json!({"bytes": hex::encode(bytes)}));
            None
        }
    }
}

fn recorded(ctx: &mut Ctx, rng: &mut Rng, s: &Value) {
    let eng = Eng::new();
    let policy: Policy = must!(ctx, serde_json::from_str(s["policy"].as_str().unwrap()), "recorded policy");
    let Some(msk) = read::<Msk>(ctx, &b(&s["msk"]), "private key") else { return };
    let Some(mpk) = read::<Mpk>(ctx, &b(&s["mpk"]), "public key") else { return };
    let Some(mdk) = read::<Mdk>(ctx, &b(&s["mdk"]), "delegation key") else { return };
    let mut keys = vec![];
    for k in arr(&s["keys"]) {
        let Some(uk) = read::<Uk>(ctx, &b(&k["key"]), "user key") else { return };
        // keys of the same policies made now, and delegated from the recorded ones
        let access: AccessPolicy = must!(ctx, serde_json::from_str(k["access"].as_str().unwrap()), "recorded access policy");
        let now = must!(ctx, eng.generate_user_key(&policy, &msk, &access), "key from the recorded master key");
        let del = must!(ctx, eng.delegate_user_key(&policy, &mdk, &uk, &AccessPolicy::All), "delegation of a recorded key");
        keys.push([uk, now, del]);
    }
    for c in arr(&s["ciphertexts"]) {
        let Some(ct) = read::<Ct>(ctx, &b(&c["ciphertext"]), "cipher text") else { return };
        let Some(msg) = read::<Pt>(ctx, &b(&c["message"]), "message") else { return };
        let again = must!(ctx, eng.encrypt(&policy, &mpk, &attributes(&c["attributes"]), &msg), "encryption with a recorded key");
        // the same attribute values as recorded
        let (g1, g2) = (RCt::parse(&enc(&again)), RCt::parse(&b(&c["ciphertext"])));
        match (g1, g2) {
            (Some(x), Some(y)) if x.gamma.iter().collect::<BTreeSet<_>>() == y.gamma.iter().collect() => {}
            _ => ctx.violation("a cipher text for the same attributes carries other values", json!({"attributes": c["attributes"]})),
        }
        for (i, k) in keys.iter().enumerate() {
            let opens = c["opens"][i].as_bool().unwrap();
            for (who, k) in ["recorded", "new", "delegated"].iter().zip(k) {
                for (what, ct) in [("recorded", &ct), ("new", &again)] {
                    ctx.journal("decrypt a recorded cipher text");
                    ctx.count("recorded cipher texts and keys tried", 1);
                    let r = eng.decrypt(ct, k);
                    let ok = match (&r, opens) {
                        (Ok(Some(m)), true) => *m == msg,
                        (Ok(None) | Err(_), false) => true,
                        _ => false,
                    };
                    if opens {
                        ctx.count("recorded decryptions", 1);
                    }
                    if !ok {
                        ctx.violation(
                            format!("{who} key, {what} cipher text: {}", match r { Ok(Some(_)) => "another message".into(), Ok(None) => "no message".to_string(), Err(e) => e.to_string() }),
                            json!({"expected to open": opens, "attributes": c["attributes"], "access": s["keys"][i]["access"]}),
                        );
                        return;
                    }
                    ctx.eval(Some(&format!("recorded {who} {what} {i} {}", c["ciphertext"].as_str().unwrap().get(..60).unwrap())));
                }
            }
        }
    }
    for h in arr(&s["headers"]) {
        let (key, bytes) = (b(&h["key"]), b(&h["bytes"]));
        for (i, k) in keys.iter().enumerate() {
            let opens = h["opens"][i].as_bool().unwrap();
            let k = rng.pick(k);
            ctx.journal("decrypt a recorded header");
            let ok = if h["kind"] == "symmetric" {
                match eng.decrypt_symmetric_key(k, &bytes, key.len()) {
                    Ok(d) => opens && d == key,
                    Err(_) => !opens,
                }
            } else {
                match hy::decrypt_header(k, &bytes) {
                    Ok((d, m)) => {
                        opens && d == key && m.0 == b(&h["uid"]) && m.1 == h["additional"].as_str().map(|x| hex::decode(x).unwrap())
                    }
                    Err(_) => !opens,
                }
            };
            ctx.count("recorded cipher texts and keys tried", 1);
            if !ok {
                ctx.violation("a recorded header does not decrypt as it was recorded", json!({"header": h, "access": s["keys"][i]["access"]}));
                return;
            }
            ctx.eval(Some(&format!("recorded header {i} {}", h["key"])));
        }
    }
    for x in arr(&s["blocks"]) {
        let (k, u, n) = (b(&x["key"]), b(&x["uid"]), x["number"].as_u64().unwrap() as usize);
        ctx.journal("decrypt a recorded block");
        match hy::dec_block(&k, &u, n, &b(&x["block"])) {
            Ok(d) if d == b(&x["data"]) => {}
            _ => {
                ctx.violation("a recorded block does not decrypt as it was recorded", json!({"block": x}));
                return;
            }
        }
        ctx.count("recorded blocks", 1);
        ctx.eval(Some(&format!("recorded block {}", x["block"].as_str().unwrap().get(..48).unwrap())));
    }
}

fn gamma(m: &Model, l: &[At]) -> Vec<u32> {
    l.iter().map(|x| m.current(*x)).collect()
}

/// One library and one reference authority for the same secrets
struct Both {
    a: Auth,
    r: RMsk,
    rp: RMpk,
    sig: String,
}

fn setup(ctx: &mut Ctx, rng: &mut Rng, w: World, from_reference: bool) -> Option<Both> {
    w.check();
    let d = describe(&w);
    if from_reference {
        let r = RMsk::generate(rng, w.m.max as usize + 1);
        let rp = r.public();
        let (s, p, q) = (r.bytes(), rp.bytes(), r.delegation().bytes());
        let (msk, mpk, mdk) = match (dec::<Msk>(&s), dec::<Mpk>(&p), dec::<Mdk>(&q)) {
            (Ok(a), Ok(b), Ok(c)) => (a, b, c),
            (a, b, c) => {
                ctx.violation(
                    format!("master keys of the reference refused: {:?}", [a.err(), b.err(), c.err()].map(|e| e.map(|e| e.to_string()))),
                    json!({"msk": hex::encode(s)}),
                );
                return None;
            }
        };
        if enc(&msk) != s || enc(&mpk) != p || enc(&mdk) != q {
            ctx.violation("master keys of the reference are written differently", json!({"msk": hex::encode(s)}));
            return None;
        }
        ctx.count("reference to library", 3);
        Some(Both { a: Auth { w, eng: Eng::new(), msk, mpk, mdk }, r, rp, sig: format!("ref {d}") })
    } else {
        let a = match Auth::new(w) {
            Ok(a) => a,
            Err(e) => {
                ctx.violation(e, json!({}));
                return None;
            }
        };
        let Some(r) = RMsk::parse(&enc(&a.msk)) else {
            ctx.violation("the private key is not in the format of the specification", json!({"msk": hex::encode(enc(&a.msk))}));
            return None;
        };
        let rp = r.public();
        if rp.bytes() != enc(&a.mpk) || r.delegation().bytes() != enc(&a.mdk) {
            ctx.violation("the public or delegation key is not that of the private key", json!({"msk": hex::encode(enc(&a.msk))}));
            return None;
        }
        ctx.count("library to reference", 3);
        Some(Both { a, r, rp, sig: format!("lib {d}") })
    }
}

fn interop(ctx: &mut Ctx, rng: &mut Rng, x: &Both, f: Option<&F>) {
    let a = &x.a;
    let (v, access, shape) = match f {
        Some(f) => (a.w.m.snapshot(f), a.w.m.access(f), f.shape()),
        None => (a.w.m.snapshot_all(), AccessPolicy::All, "All".into()),
    };
    let sig = |what: &str, l: &[At]| format!("{what} {} {shape} {l:?}", x.sig);
    let detail = |k: &[u8], c: &[u8]| json!({"policy": describe(&a.w), "formula": shape, "key": hex::encode(k), "ciphertext": hex::encode(c)});
    // keys: of the library, delegated by it, of the reference, delegated from the latter
    let lib = must!(ctx, a.eng.generate_user_key(&a.w.policy, &a.msk, &access), "key");
    let (attrs, m) = msp(&v);
    let rk = x.r.key(rng, &attrs, &m);
    let refk: Uk = must!(ctx, dec(&rk.bytes()), "reading a key of the reference");
    if enc(&refk) != rk.bytes() {
        ctx.violation("a key of the reference is written differently", detail(&rk.bytes(), &[]));
        return;
    }
    let d1 = must!(ctx, a.eng.delegate_user_key(&a.w.policy, &a.mdk, &lib, &AccessPolicy::All), "delegation");
    let d2 = must!(ctx, a.eng.delegate_user_key(&a.w.policy, &a.mdk, &refk, &AccessPolicy::All), "delegation of a key of the reference");
    let keys = [lib, d1, refk, d2];
    let mut rkeys = vec![];
    for k in &keys {
        let Some(r) = RUk::parse(&enc(k)) else {
            ctx.violation("a user key is not in the format of the specification", detail(&enc(k), &[]));
            return;
        };
        let mut want = vec![];
        v.leaves(&mut want);
        want.sort_unstable();
        let mut got = r.attrs.clone();
        got.sort_unstable();
        if want != got {
            ctx.violation("the rows of a user key are not labelled with the values of its policy", detail(&enc(k), &[]));
            return;
        }
        rkeys.push(r);
    }
    for round in 0..4 {
        let mut l = match (f, round) {
            (None, _) => {
                let mut all = a.w.m.all();
                rng.shuffle(&mut all);
                let n = rng.range(1, all.len());
                all.truncate(n);
                all
            }
            // more than 255 attributes
            (Some(_), 0) if a.w.m.all().len() > 255 => a.w.m.all(),
            (Some(f), 0 | 1) => gen_sat(rng, &a.w.m, f),
            (Some(f), _) => gen_unsat(rng, &a.w.m, f),
        };
        l.sort_unstable();
        l.dedup();
        rng.shuffle(&mut l);
        if l.is_empty() {
            continue;
        }
        let g = gamma(&a.w.m, &l);
        let opens = v.eval(&g.iter().copied().collect());
        // library to reference
        let msg = must!(ctx, a.message(), "message");
        let ct = must!(ctx, a.encrypt(&l, &msg), "encrypt");
        let Some(rct) = RCt::parse(&enc(&ct)) else {
            ctx.violation("a cipher text is not in the format of the specification", detail(&[], &enc(&ct)));
            return;
        };
        let (mut s1, mut s2) = (rct.gamma.clone(), g.clone());
        s1.sort_unstable();
        s2.sort_unstable();
        if s1 != s2 {
            ctx.violation(format!("the cipher text is labelled {s1:?}, the attributes have values {s2:?}"), detail(&[], &enc(&ct)));
            return;
        }
        // components are those of one single exponent
        for (i, j) in [(0, rct.gamma.len() - 1)] {
            let (gi, gj) = (rct.gamma[i] as usize, rct.gamma[j] as usize);
            let lhs = cosmian_bls12_381::G1Projective::from(rct.e[i]) * x.r.t[gj];
            let rhs = cosmian_bls12_381::G1Projective::from(rct.e[j]) * x.r.t[gi];
            if lhs != rhs {
                ctx.violation("components of a cipher text have different exponents", detail(&[], &enc(&ct)));
            }
        }
        let msg_r = *read_gt(&enc(&msg)).as_ref().expect("message");
        for r in &rkeys {
            let got = r.decrypt(&rct);
            if got != opens.then_some(msg_r) {
                ctx.violation(
                    format!("the reference {} a cipher text of the library, {} expected", if got.is_some() { "opens" } else { "does not open" }, if opens { "success" } else { "refusal" }),
                    detail(&r.bytes(), &enc(&ct)),
                );
                return;
            }
            ctx.count(if opens { "library to reference" } else { "refusals agreed" }, 1);
            ctx.eval(Some(&sig("l2r", &l)));
        }
        // reference to library
        let m2 = random_gt(rng);
        let c2 = x.rp.encrypt(rng, &m2, &g);
        let lct: Ct = must!(ctx, dec(&c2.bytes()), "reading a cipher text of the reference");
        if enc(&lct) != c2.bytes() {
            ctx.violation("a cipher text of the reference is written differently", detail(&[], &c2.bytes()));
            return;
        }
        for k in &keys {
            ctx.journal("decrypt");
            let r = a.eng.decrypt(&lct, k);
            let ok = match &r {
                Ok(Some(m)) => opens && enc(m) == m2.to_compressed(),
                _ => !opens,
            };
            if !ok {
                ctx.violation(
                    format!("the library does not decrypt as the specification says ({} expected)", if opens { "success" } else { "refusal" }),
                    detail(&enc(k), &c2.bytes()),
                );
                return;
            }
            ctx.count(if opens { "reference to library" } else { "refusals agreed" }, 1);
            ctx.eval(Some(&sig("r2l", &l)));
        }
        if !opens {
            continue;
        }
        // symmetric keys
        let k = rng.pick(&keys);
        let rk = rng.pick(&rkeys);
        let n = rng.range(1, 200);
        let d = must!(ctx, a.eng.decrypt_symmetric_key(k, &c2.bytes(), n), "symmetric key");
        if d != shake(&m2, n) {
            ctx.violation(format!("a symmetric key of {n} bytes is not derived as specified"), detail(&enc(k), &c2.bytes()));
            return;
        }
        ctx.count("reference to library", 1);
        let (sk, e) = must!(ctx, a.eng.generate_symmetric_key(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&l), n), "symmetric key");
        if RCt::parse(&e).and_then(|c| rk.decrypt(&c)).map(|m| shake(&m, n)) != Some(sk) {
            ctx.violation(format!("a symmetric key of {n} bytes is not derived as specified"), detail(&rk.bytes(), &e));
            return;
        }
        ctx.count("library to reference", 1);
        // headers
        let un = *rng.pick(&[0usize, 1, 16, 300]);
        let an = *rng.pick(&[0usize, 1, 40, 1000]);
        let meta: Option<hy::Meta> = rng.chance(4, 5).then(|| (rng.bytes(un), rng.chance(3, 4).then(|| rng.bytes(an))));
        let (hk, h) = must!(ctx, hy::encrypt_header(&a.w.policy, &a.mpk, &a.w.m.attrs_of(&l), meta.as_ref()), "header");
        let got = header_parse(&h).and_then(|p| {
            let key = shake(&rk.decrypt(&RCt::parse(&p.ct)?)?, 32);
            let meta = match p.meta {
                None => None,
                Some((nonce, e)) => Some(aes_dec(&key, &nonce, &e, &[])?),
            };
            Some((key, meta))
        });
        let want = (hk, meta.as_ref().map(|m| meta_bytes(&m.0, m.1.as_deref())));
        if got != Some(want) {
            ctx.violation("a header is not what the specification says", json!({"header": hex::encode(&h), "metadata": format!("{meta:?}")}));
            return;
        }
        ctx.count("library to reference", 1);
        ctx.eval(Some(&sig(&format!("header {meta:?}"), &l)));
        let hk = shake(&m2, 32);
        let mb = meta.as_ref().map(|m| meta_bytes(&m.0, m.1.as_deref()));
        let nonce: [u8; 12] = rng.bytes(12).try_into().unwrap();
        let h = header_bytes(&c2.bytes(), &hk, mb.as_ref().map(|m| (&nonce, &m[..])));
        let (dk, dm) = must!(ctx, hy::decrypt_header(k, &h), "header of the reference");
        if dk != hk || dm != hy::expected(meta.as_ref()) {
            ctx.violation("a header of the reference decrypts to something else", json!({"header": hex::encode(&h), "metadata": format!("{meta:?}"), "got": format!("{dm:?}")}));
            return;
        }
        ctx.count("reference to library", 1);
    }
}

fn read_gt(b: &[u8]) -> Option<cosmian_bls12_381::Gt> {
    Cur::new(b).gt()
}

fn run(ctx: &mut Ctx) {
    let corpus: Vec<Value> = serde_json::from_str(CORPUS).expect("corpus");
    let n = corpus.len() as u64;
    ctx.phase("recorded", n, n, |ctx, rng| {
        recorded(ctx, rng, &corpus[ctx.case() as usize]);
    });
    ctx.phase("interop", 160, 3000, |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let from_reference = rng.chance(1, 2);
        let Some(x) = setup(ctx, rng, w, from_reference) else { return };
        let f = gen_formula(rng, &x.a.w.m, 10);
        ctx.sample(|| format!("{} formula {}", x.sig, f.shape()));
        let f = (!rng.chance(1, 8)).then_some(f);
        interop(ctx, rng, &x, f.as_ref());
    });
    ctx.phase("wide", 4, 40, |ctx, rng| {
        // values beyond one byte
        let n = rng.range(258, 400);
        let mut w = World::new(n as u32 + 2);
        w.add_axis("wide", &(0..n).map(|i| format!("v{i}")).collect::<Vec<_>>(), false);
        for _ in 0..2 {
            let all = w.m.all();
            let a = *rng.pick(&all);
            w.rotate(a);
        }
        let from_reference = rng.chance(1, 2);
        let w_all = w.m.all();
        let Some(x) = setup(ctx, rng, w, from_reference) else { return };
        // keys of a few rows, or more than 255
        let many = ctx.case() % 4 == 3;
        let mut leaves = if many { w_all } else { vec![(0, rng.below(250)), (0, 254), (0, 255), (0, 256), (0, n - 1)] };
        leaves.dedup();
        rng.shuffle(&mut leaves);
        let f = gen_tree(rng, &leaves, if many { 1 } else { 5 }, 0);
        ctx.count("keys of more than 255 rows", u64::from(many));
        interop(ctx, rng, &x, Some(&f));
    });
    ctx.phase("blocks", 800, 20000, |ctx, rng| {
        let key = rng.bytes(32);
        let ul = *rng.pick(&[0usize, 1, 8, 16, 32, 100, 1000]);
        let uid = rng.bytes(ul);
        let number = match rng.below(6) {
            0 => 0,
            1 => rng.below(300),
            2 => 1 << rng.below(64),
            3 => usize::MAX - rng.below(3),
            _ => rng.u64() as usize,
        };
        let size = match rng.below(4) {
            0 => rng.range(1, 64),
            1 => rng.range(1, 5000),
            2 => 16 * rng.range(1, 40) + rng.below(3) - 1,
            _ => rng.range(5000, 100_000),
        };
        let data = rng.bytes(size);
        let sig = format!("block {size} {} {number}", uid.len());
        let b = must!(ctx, hy::enc_block(&key, &uid, number, &data), "block");
        if block_dec(&key, &uid, number as u64, &b) != Some(data.clone()) || b.len() != size + 28 {
            ctx.violation("a block is not what the specification says", json!({"key": hex::encode(&key), "uid": hex::encode(&uid), "number": number, "block": hex::encode(&b)}));
            return;
        }
        ctx.count("library to reference", 1);
        ctx.eval(Some(&sig));
        let nonce: [u8; 12] = rng.bytes(12).try_into().unwrap();
        let b = block_enc(&key, &nonce, &uid, number as u64, &data);
        match hy::dec_block(&key, &uid, number, &b) {
            Ok(d) if d == data => {}
            Ok(_) => ctx.violation("a block of the reference decrypts to something else", json!({"block": hex::encode(&b)})),
            Err(e) => ctx.violation(format!("a block of the reference is refused: {e}"), json!({"block": hex::encode(&b), "number": number})),
        }
        ctx.count("reference to library", 1);
        ctx.eval(Some(&sig));
    });
}
