//! What a property says of the library, seen through its C, Python and
//! WebAssembly interfaces: the exchanges of C16, C17 and C23 with what belongs
//! to the property only. The modules are there when the check built them.
use super::*;
use crate::peer::{b, n, s, Peer, A, R};
use crate::reference as r;
use crate::rng::Rng;
use serde_json::json;

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    /// objects made on both sides, used on both
    Exchange,
    /// valid calls, then bad ones
    Hostile,
}

pub fn module(ctx: &mut Ctx, var: &str) -> Option<Peer> {
    std::env::var_os(var)?;
    let p = std::panic::catch_unwind(|| c16::start(var)).ok();
    if p.is_none() {
        // the business of C16 and C17
        ctx.harness_errors.push(format!("{var}: the module does not start"));
    }
    p
}

/// `n` cases of each interface (ten or twenty times as many in thorough runs)
pub fn run(ctx: &mut Ctx, what: What, (c, python, wasm): (u64, u64, u64), keep: fn(&str) -> bool) {
    ctx.keep = Some(keep);
    let tag = |i: &str| format!("interface-{i}");
    if c > 0 {
        ctx.phase(&tag("C"), c, 20 * c, |ctx: &mut Ctx, rng: &mut Rng| match what {
            What::Exchange => c23::scenario(ctx, rng, false),
            What::Hostile => {
                let sweep = ctx.case() == 0;
                c23::hostile(ctx, rng, sweep)
            }
        });
    }
    if python > 0 {
        if let Some(mut p) = module(ctx, "VMON_PYTHON") {
            ctx.phase(&tag("Python"), python, 20 * python, |ctx, rng| match what {
                What::Exchange => c16::scenario(ctx, &mut p, rng, false),
                What::Hostile => {
                    let sweep = ctx.case() == 0;
                    c16::hostile(ctx, &mut p, rng, sweep)
                }
            });
        }
    }
    if wasm > 0 {
        if let Some(mut p) = module(ctx, "VMON_WASM") {
            ctx.phase(&tag("WebAssembly"), wasm, 10 * wasm, |ctx, rng| match what {
                What::Exchange => c17::scenario(ctx, &mut p, rng, false),
                What::Hostile => {
                    let sweep = ctx.case() == 0;
                    c17::hostile(ctx, &mut p, rng, sweep)
                }
            });
        }
    }
    if what == What::Exchange {
        alikes(ctx, (c / 6, python / 6, wasm / 4));
    }
    ctx.keep = None;
}

pub fn alikes(ctx: &mut Ctx, (c, python, wasm): (u64, u64, u64)) {
    if c > 0 {
        ctx.phase("alike-C", c, 20 * c, |ctx, rng| alike(ctx, &mut Side::C, rng));
    }
    for (var, k, tag) in [("VMON_PYTHON", python, "alike-Python"), ("VMON_WASM", wasm, "alike-WebAssembly")] {
        if k == 0 {
            continue;
        }
        if let Some(mut p) = module(ctx, var) {
            ctx.phase(tag, k, 10 * k, |ctx, rng| {
                let mut side = if var == "VMON_WASM" { Side::WebAssembly(&mut p) } else { Side::Python(&mut p) };
                alike(ctx, &mut side, rng)
            });
        }
    }
}

/// A satisfied key does not do what it must
pub fn satisfied(m: &str) -> bool {
    !m.contains("accepts") && !m.contains("accept a key") && !m.contains("polic") && !m.contains("size")
}
/// A key that is not satisfied does more than it must
pub fn unsatisfied(m: &str) -> bool {
    m.contains("a key that is not satisfied")
}
pub fn rotation(m: &str) -> bool {
    m.contains("polic") || m.contains("rotate_attributes")
}
/// Headers and blocks
pub fn hybrid(m: &str) -> bool {
    (m.contains("header") || m.contains("block") || m.contains("encrypt")) && !m.contains("another") && !m.contains("size")
}
pub fn altered(m: &str) -> bool {
    m.contains("accepts another")
}
pub fn announced(m: &str) -> bool {
    m.contains("size") || m.contains("complete encryption")
}
pub fn masters(m: &str) -> bool {
    m.contains("master")
}
/// What a bad request gives
pub fn requests(m: &str) -> bool {
    m.contains("succeeds where") || m.contains("gives another result") || m.contains("panic") || m.contains("accepts nothing")
}
pub fn crashes(m: &str) -> bool {
    m.contains("panic") || m.contains("process gone")
}

/// Names which are easily taken for one another: of the same letters, of the
/// same length, beginning and ending the same way
fn look_alikes(rng: &mut Rng, kind: u64) -> Vec<String> {
    let mut l: Vec<String> = match kind % 9 {
        0 => ["abcd", "abdc", "acbd", "badc", "dcba", "bacd", "cabd", "dabc"].map(String::from).to_vec(),
        // the same sums of letters, of their squares
        1 => ["ad", "bc", "cb", "da"].map(String::from).to_vec(),
        2 => (10..18).map(|i| format!("{}{i}{}", "p".repeat(40), "s".repeat(40))).collect(),
        3 => ["Ab", "aB", "AB", "ab"].map(String::from).to_vec(),
        4 => ["é", "e\u{301}", "É", "E\u{301}", "ѐ"].map(String::from).to_vec(),
        // (the dependency reads no name with JSON escapes: no tabulation, no quote)
        5 => ["b c", "b  c", "bc", "b\u{a0}c", "b\u{3000}c", "b\u{200b}c", "b\u{2003}c"].map(String::from).to_vec(),
        6 => ["b.c", "b_c", "b-c", "b/c", "b;c", "b'c", "b%20c", "b+c", "b:c"].map(String::from).to_vec(),
        // numbers and words of JSON
        7 => ["1", "01", "1.0", "0x1", "1e0", "true", "null", "+1", "-1"].map(String::from).to_vec(),
        _ => ["v12", "v21", "v1", "v2", "v011", "v101", "v110"].map(String::from).to_vec(),
    };
    rng.shuffle(&mut l);
    l.truncate(7);
    l
}

pub enum Side<'a> {
    C,
    Python(&'a mut Peer),
    WebAssembly(&'a mut Peer),
}

impl Side<'_> {
    fn call(&mut self, ctx: &mut Ctx, f: &'static str, a: Vec<A>) -> Result<R, String> {
        ctx.journal(f);
        match self {
            Side::C => c23::perform(&remote::call(f, a)).map_err(|e| e.to_string()),
            Side::Python(p) | Side::WebAssembly(p) => p.call(f, &a).map_err(|e| e.to_string()),
        }
    }
}

/// Requests which look alike, one right after the other, from the same caches
pub fn alike(ctx: &mut Ctx, side: &mut Side, rng: &mut Rng) {
    // three cases go through every kind
    let kind = 3 * ctx.case() as u64 + 5;
    let names = [look_alikes(rng, kind), look_alikes(rng, kind + 1)];
    let around = look_alikes(rng, kind + 2);
    let total: usize = names.iter().map(Vec::len).sum();
    let mut w = World::new(total as u32);
    for (n, a) in around.iter().zip(&names) {
        w.add_axis(n, a, false);
    }
    let pol = w.policy.to_string().into_bytes();
    let eng = Eng::new();
    let (msk, mpk, _) = must!(ctx, eng.generate_master_key(&w.policy), "master keys");
    let (bsk, bpk) = (enc(&msk), enc(&mpk));
    let all = w.m.all();
    let n_h = |r: R| match r {
        R::N(h) => h,
        x => remote::outputs(x).first().and_then(|b| b[..].try_into().ok()).map_or(-1, |b| i128::from(i32::from_be_bytes(b))),
    };
    macro_rules! go {
        ($f:expr, $a:expr) => {{
            let f: &'static str = $f;
            match side.call(ctx, f, $a) {
                Ok(r) => r,
                Err(e) => {
                    ctx.violation(format!("{f} failed: {e}"), json!({"policy": String::from_utf8_lossy(&pol)}));
                    return;
                }
            }
        }};
    }
    let text = |a: &At| format!("{}::{}", w.m.axes[a.0].name, w.m.axes[a.0].attrs[a.1]);
    let eh = match side {
        Side::C => n_h(go!("h_aes_create_encryption_cache", vec![s(&w.policy.to_string()), b(&bpk)])),
        Side::WebAssembly(_) => n_h(go!("webassembly_create_encryption_cache", vec![b(&pol), b(&bpk)])),
        Side::Python(_) => 0,
    };
    // one key for an attribute, made there and not far from those it resembles
    let mut keys: Vec<(At, Uk, i128, Vec<u8>)> = vec![];
    for a in &all {
        let f = F::Attr(*a);
        let (x, j) = (w.m.expression(&f), serde_json::to_string(&w.m.access(&f)).expect("json"));
        let r = match side {
            Side::C => go!("h_generate_user_private_key", vec![b(&bsk), s(&j), s(&w.policy.to_string())]),
            Side::Python(_) => go!("generate_user_private_key", vec![b(&bsk), s(&x), b(&pol)]),
            Side::WebAssembly(_) => go!("webassembly_generate_user_private_key", vec![b(&bsk), s(&x), b(&pol)]),
        };
        let k = remote::outputs(r).remove(0);
        let uk: Uk = must!(ctx, dec(&k), "user key of the other side");
        let h = match side {
            Side::C => n_h(go!("h_aes_create_decryption_cache", vec![b(&k)])),
            Side::WebAssembly(_) => n_h(go!("webassembly_create_decryption_cache", vec![b(&k)])),
            Side::Python(_) => 0,
        };
        keys.push((*a, uk, h, k));
    }
    let uids = look_alikes(rng, kind);
    for round in 0..10 {
        // mostly one attribute, the next one of the axis
        let mut l = vec![all[(round * 5 / 4) % all.len()]];
        if rng.chance(1, 3) {
            let other = *rng.pick(&all);
            if !l.contains(&other) {
                l.push(other);
            }
        }
        let uid = uids[round % uids.len()].as_bytes().to_vec();
        let meta: hy::Meta = (uid.clone(), None);
        let aj = serde_json::to_string(&w.m.attrs_of(&l)).expect("json");
        let t = l.iter().map(text).collect::<Vec<_>>().join(",");
        let cached = rng.chance(3, 4);
        let o = remote::outputs(match side {
            Side::C if cached => go!("h_aes_encrypt_header_using_cache", vec![n(eh), s(&aj), b(&uid), b(&[])]),
            Side::C => go!("h_aes_encrypt_header", vec![s(&w.policy.to_string()), b(&bpk), s(&aj), b(&uid), b(&[])]),
            Side::Python(_) => {
                let mj = serde_json::to_vec(&hy::metadata(&meta)).expect("metadata");
                go!("encrypt_hybrid_header", vec![b(&mj), b(&pol), b(aj.as_bytes()), b(&bpk)])
            }
            Side::WebAssembly(_) if cached => go!("webassembly_encrypt_hybrid_header_using_cache", vec![n(eh), s(&t), b(&uid)]),
            Side::WebAssembly(_) => go!("webassembly_encrypt_hybrid_header", vec![b(&pol), b(&bpk), s(&t), b(&uid)]),
        });
        let (sk, h) = match (&o[..], &side) {
            ([k, h], _) => (k.clone(), h.clone()),
            ([x], Side::WebAssembly(_)) => match remote::split_header(x) {
                Some((k, h)) => (k.to_vec(), h.to_vec()),
                None => {
                    ctx.violation("a header of another form", json!({}));
                    return;
                }
            },
            _ => {
                ctx.violation("a header of another form", json!({}));
                return;
            }
        };
        let want = hy::expected(Some(&meta));
        let sig = format!("alike {around:?} {names:?} {l:?} {cached}");
        for (a, uk, dh, k) in &keys {
            let opens = l.contains(a);
            let native = hy::decrypt_header(uk, &h).ok();
            let there = match side {
                Side::C if rng.chance(1, 2) => side.call(ctx, "h_aes_decrypt_header_using_cache", vec![n(*dh), b(&h)]),
                Side::C => side.call(ctx, "h_aes_decrypt_header", vec![b(&h), b(k)]),
                Side::Python(_) => side.call(ctx, "decrypt_hybrid_header", vec![b(k), b(&h)]),
                // ten times slower
                Side::WebAssembly(_) if !opens && rng.chance(4, 5) => Err(String::new()),
                Side::WebAssembly(_) => side.call(ctx, "webassembly_decrypt_hybrid_header_using_cache", vec![n(*dh), b(&h)]),
            };
            let there = there.ok().map(remote::outputs);
            let clear = match side {
                Side::C => vec![sk.clone(), want.0.clone(), want.1.clone().unwrap_or_default()],
                Side::Python(_) => vec![sk.clone(), r::meta_bytes(&want.0, want.1.as_deref())],
                Side::WebAssembly(_) => vec![[&32u32.to_be_bytes()[..], &sk, &r::meta_bytes(&want.0, want.1.as_deref())].concat()],
            };
            if !opens {
                if native.is_some() || there.is_some() {
                    ctx.violation("the function accepts a key that is not satisfied by the list, which looks like another one", json!({"case": sig, "key": format!("{a:?}"), "native": native.is_some(), "there": there.is_some()}));
                    return;
                }
            } else if native != Some((sk.clone(), want.clone())) || there != Some(clear) {
                ctx.violation("the header decrypts to something else", json!({"case": sig, "key": format!("{a:?}"), "header": hex::encode(&h)}));
                return;
            }
            ctx.count(if opens { "headers exchanged" } else { "refusals" }, 1);
        }
        ctx.count("requests looking alike", 1);
        ctx.eval(Some(&sig));
    }
    if let Side::C = side {
        crate::ffi::enc_destroy(eh as i32);
        for k in &keys {
            crate::ffi::dec_destroy(k.2 as i32);
        }
    }
}
