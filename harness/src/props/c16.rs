use super::remote::*;
use super::*;
use crate::objects;
use crate::peer::{b, n, s, Fail, Peer, A};
use crate::reference as r;
use abe_policy::Policy;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    workers: 8,
    rule: "the module built from the current tree and loaded by the Python interpreter, called in step with the native functions: random policies built and rotated on both sides, every object made on either side used on the other, satisfied and not; then valid calls with one or two arguments spoiled, the outcomes compared with those of the native functions; distinct = (policy, formula, list, metadata sizes, sides) or (function, way of spoiling)",
    floors: &[
        ("policies compared", 60),
        ("keys exchanged", 300),
        ("headers exchanged", 300),
        ("refusals", 100),
        ("blocks exchanged", 600),
        ("complete encryptions exchanged", 300),
        ("successes compared", 500),
        ("exceptions compared", 2000),
    ],
    assumptions: &[MODEL, REF],
};

pub const FUNCTIONS: [&str; 12] = [
    "decrypt", "decrypt_hybrid_block", "decrypt_hybrid_header", "encrypt", "encrypt_hybrid_block",
    "encrypt_hybrid_header", "generate_delegated_key", "generate_master_keys", "generate_policy",
    "generate_user_private_key", "get_encrypted_header_size", "rotate_attributes",
];

pub fn start(var: &str) -> Peer {
    let c: Vec<String> = std::env::var(var).unwrap_or_else(|_| panic!("{var} is not set")).split(' ').map(String::from).collect();
    Peer::start(&c)
}

struct S<'a> {
    ctx: &'a mut Ctx,
    p: &'a mut Peer,
}

impl S<'_> {
    /// a call which must succeed
    fn ok(&mut self, f: &'static str, a: Vec<A>) -> Option<Vec<Vec<u8>>> {
        self.ctx.journal(f);
        match self.p.call(f, &a) {
            Ok(v) => Some(outputs(v)),
            Err(e) => {
                let d: Vec<String> = a.iter().map(|x| format!("{x:?}").chars().take(3000).collect()).collect();
                self.ctx.violation(format!("{f} failed: {e}"), json!({"arguments": d}));
                None
            }
        }
    }
    /// a call which must raise an exception
    fn refused(&mut self, f: &'static str, a: Vec<A>, what: &str) {
        self.ctx.journal(f);
        let d = || json!({"arguments": a.iter().map(|x| format!("{x:?}").chars().take(3000).collect::<String>()).collect::<Vec<_>>()});
        match self.p.call(f, &a) {
            Ok(_) => self.ctx.violation(format!("{f} accepts {what}"), d()),
            Err(Fail::Raised(..)) => self.ctx.count("refusals", 1),
            Err(e) => self.ctx.violation(format!("{f} given {what}: {e}"), d()),
        }
    }
}

macro_rules! some {
    ($e:expr) => {
        match $e {
            Some(v) => v,
            None => return,
        }
    };
}

fn axes_json(w: &World) -> String {
    json!(w
        .m
        .axes
        .iter()
        .map(|a| json!({"name": a.name, "attributes": a.attrs, "hierarchical": a.hier}))
        .collect::<Vec<_>>())
    .to_string()
}

fn meta_bytes(m: &hy::Meta) -> Vec<u8> {
    serde_json::to_vec(&hy::metadata(m)).expect("metadata")
}

pub fn scenario(ctx: &mut Ctx, p: &mut Peer, rng: &mut Rng, big: bool) {
    let pr = profile(rng);
    // texts: the names are plain, as in expressions
    let base = if big { large_world(rng, 0) } else { gen_world(rng, &Profile { plain: true, ..*pr }) };
    let extra = if big && ctx.case() % 3 == 0 { 2000 } else { rng.range(0, 6) as u32 };
    let axes: u32 = base.m.axes.iter().map(|a| a.attrs.len() as u32).sum();
    let mut w = World::new(axes + extra);
    for a in &base.m.axes {
        w.add_axis(&a.name, &a.attrs, a.hier);
    }
    let mut c = S { ctx, p };
    let mut pol = some!(c.ok("generate_policy", vec![b(axes_json(&w).as_bytes()), n(w.m.max)])).remove(0);
    let check = |c: &mut S, pol: &[u8], w: &World| {
        if !same_policy(pol, w.policy.to_string().as_bytes()) {
            c.ctx.violation("the policy differs from the native one", json!({"got": String::from_utf8_lossy(pol), "native": w.policy.to_string()}));
        }
        c.ctx.count("policies compared", 1);
    };
    check(&mut c, &pol, &w);
    while w.room() > 0 && rng.chance(4, 5) {
        let k = rng.range(1, w.room().min(3) as usize);
        let all = w.m.all();
        let l: Vec<At> = (0..k).map(|_| *rng.pick(&all)).collect();
        for a in &l {
            w.rotate(*a);
        }
        let aj = serde_json::to_vec(&w.m.attrs_of(&l)).expect("attributes");
        pol = some!(c.ok("rotate_attributes", vec![b(&aj), b(&pol)])).remove(0);
        check(&mut c, &pol, &w);
    }
    if c.ctx.violated() {
        return;
    }
    // what Python gives is used natively, and the other way round
    let native: Policy = match serde_json::from_slice(&pol) {
        Ok(x) => x,
        Err(e) => {
            c.ctx.violation(format!("policy not understood: {e}"), json!({}));
            return;
        }
    };
    if rng.chance(1, 2) {
        pol = w.policy.to_string().into_bytes();
    } else {
        w.policy = native;
    }
    let eng = Eng::new();
    let remote_masters = rng.chance(1, 2);
    let (msk, mpk, mdk) = if remote_masters {
        let k = some!(c.ok("generate_master_keys", vec![b(&pol)]));
        (k[0].clone(), k[1].clone(), k[2].clone())
    } else {
        let k = must!(c.ctx, eng.generate_master_key(&w.policy), "master keys");
        (enc(&k.0), enc(&k.1), enc(&k.2))
    };
    let nmsk: Msk = must!(c.ctx, dec(&msk), "private key of the other side");
    let nmpk: Mpk = must!(c.ctx, dec(&mpk), "public key of the other side");
    let nmdk: Mdk = must!(c.ctx, dec(&mdk), "delegation key of the other side");
    let values = w.m.max as usize + 1;
    if r::RMsk::parse(&msk).map(|k| (k.t.len(), k.public().bytes() == mpk, k.delegation().bytes() == mdk)) != Some((values, true, true)) {
        c.ctx.violation("the master keys do not belong together", json!({"policy": String::from_utf8_lossy(&pol)}));
        return;
    }
    c.ctx.count("keys exchanged", 3);
    for _ in 0..2 {
        let f = if big { large_formula(rng, &w.m) } else { gen_formula(rng, &w.m, 7) };
        let x = w.m.expression(&f);
        let mut v = w.m.snapshot(&f);
        let remote_key = rng.chance(1, 2);
        let mut key = if remote_key {
            some!(c.ok("generate_user_private_key", vec![b(&msk), s(&x), b(&pol)])).remove(0)
        } else {
            enc(&must!(c.ctx, eng.generate_user_key(&w.policy, &nmsk, &w.m.access(&f)), "user key"))
        };
        c.ctx.count("keys exchanged", 1);
        let deleg = rng.chance(1, 2);
        if deleg {
            let g = if rng.chance(1, 4) { None } else { Some(c04::narrower(rng, &f)) };
            let x = g.as_ref().map_or("All".into(), |g| w.m.expression(g));
            let acc = g.as_ref().map_or(abe_policy::AccessPolicy::All, |g| w.m.access(g));
            let remote = !remote_key || rng.chance(1, 2);
            let parent = key.clone();
            key = if remote && g.is_some() {
                some!(c.ok("generate_delegated_key", vec![b(&mdk), b(&key), s(&x), b(&pol)])).remove(0)
            } else {
                let k: Uk = must!(c.ctx, dec(&key), "user key of the other side");
                enc(&must!(c.ctx, eng.delegate_user_key(&w.policy, &nmdk, &k, &acc), "delegation"))
            };
            if let Some(g) = &g {
                v = w.m.snapshot(g);
            }
            if v_rows(&key) > 1 && key == parent {
                // a lone row is determined by the master keys
                c.ctx.violation("the delegated key is the parent itself", json!({"formula": f.shape()}));
                return;
            }
            c.ctx.count("keys exchanged", 1);
        }
        let nkey: Uk = must!(c.ctx, dec(&key), "user key of the other side");
        for round in 0..3 {
            let l = if round == 2 { gen_unsat(rng, &w.m, &f) } else { gen_sat(rng, &w.m, &f) };
            let opens = v.eval(&w.m.currents(&l));
            let meta = c10::gen_meta(rng).unwrap_or_default();
            let want = hy::expected(Some(&meta));
            let mj = meta_bytes(&meta);
            let aj = serde_json::to_vec(&w.m.attrs_of(&l)).expect("attributes");
            let sig = format!("{} {} {l:?} {}+{:?} {remote_masters}{remote_key}{deleg}", describe(&w), f.shape(), meta.0.len(), meta.1.as_ref().map(Vec::len));
            // headers
            let (sk, h) = if rng.chance(1, 2) {
                let o = some!(c.ok("encrypt_hybrid_header", vec![b(&mj), b(&pol), b(&aj), b(&mpk)]));
                (o[0].clone(), o[1].clone())
            } else {
                must!(c.ctx, hy::encrypt_header(&w.policy, &nmpk, &w.m.attrs_of(&l), Some(&meta)), "header")
            };
            match (opens, hy::decrypt_header(&nkey, &h)) {
                (true, Ok((k, m))) if k == sk && m == want => {}
                (false, Err(_)) => {}
                (_, x) => {
                    c.ctx.violation(if opens { "the native function decrypts the header to something else" } else { "the native function accepts a key that is not satisfied" }, json!({"case": sig, "opens": opens, "ok": x.is_ok()}));
                    return;
                }
            }
            if opens {
                let o = some!(c.ok("decrypt_hybrid_header", vec![b(&key), b(&h)]));
                if o.len() != 2 || o[0] != sk || o[1] != r::meta_bytes(&want.0, want.1.as_deref()) {
                    c.ctx.violation("the header decrypts to something else", json!({"case": sig, "key": hex::encode(&key), "header": hex::encode(&h[..h.len().min(4000)])}));
                    return;
                }
                c.ctx.count("headers exchanged", 1);
            } else {
                c.refused("decrypt_hybrid_header", vec![b(&key), b(&h)], "a key that is not satisfied");
            }
            // blocks
            for _ in 0..2 {
                let num = match rng.below(5) {
                    0 => 0,
                    1 => u64::MAX - rng.below(2) as u64,
                    2 => (1 << 32) + rng.below(3) as u64 - 1,
                    3 => rng.u64(),
                    _ => rng.below(100) as u64,
                };
                let size = if rng.chance(1, 12) { rng.range(1, 70_000) } else { rng.range(1, 200) };
                let data = rng.bytes(size);
                let blk = if rng.chance(1, 2) {
                    some!(c.ok("encrypt_hybrid_block", vec![b(&sk), b(&want.0), n(num), b(&data)])).remove(0)
                } else {
                    must!(c.ctx, hy::enc_block(&sk, &want.0, num as usize, &data), "block")
                };
                let back = some!(c.ok("decrypt_hybrid_block", vec![b(&sk), b(&want.0), n(num), b(&blk)])).remove(0);
                if back != data || hy::dec_block(&sk, &want.0, num as usize, &blk).ok() != Some(data.clone()) || r::block_dec(&sk, &want.0, num, &blk) != Some(data) {
                    c.ctx.violation("a block decrypts to something else", json!({"case": sig, "number": num, "size": size, "block": hex::encode(&blk[..blk.len().min(2000)])}));
                    return;
                }
                c.ctx.count("blocks exchanged", 1);
                c.refused("decrypt_hybrid_block", vec![b(&sk), b(&want.0), n(num ^ 1 << rng.below(64)), b(&blk)], "another block number");
                c.refused("decrypt_hybrid_block", vec![b(&sk), b(&[&want.0[..], b"x"].concat()), n(num), b(&blk)], "another identifier");
            }
            // complete encryptions
            let size = rng.range(1, 300);
            let data = rng.bytes(size);
            let whole = if rng.chance(1, 2) {
                some!(c.ok("encrypt", vec![b(&mj), b(&pol), b(&aj), b(&mpk), b(&data)])).remove(0)
            } else {
                let blk = must!(c.ctx, hy::enc_block(&sk, &want.0, 0, &data), "block");
                [&(h.len() as u32).to_be_bytes()[..], &h, &blk].concat()
            };
            let o = some!(c.ok("get_encrypted_header_size", vec![b(&whole)])).remove(0);
            let hl = u32::from_be_bytes(o[..4].try_into().expect("4")) as usize;
            let by_hand = whole
                .get(4..4 + hl)
                .and_then(|h| hy::decrypt_header(&nkey, h).ok())
                .and_then(|(k, m)| (m == want).then(|| hy::dec_block(&k, &m.0, 0, &whole[4 + hl..]).ok()).flatten());
            if by_hand != opens.then(|| data.clone()) {
                c.ctx.violation(if opens { "the native functions decrypt a complete encryption to something else" } else { "the native functions accept a key that is not satisfied" }, json!({"case": sig, "opens": opens}));
                return;
            }
            if opens {
                let o = some!(c.ok("decrypt", vec![b(&key), b(&whole)])).remove(0);
                if o != data {
                    c.ctx.violation("a complete encryption decrypts to something else", json!({"case": sig}));
                    return;
                }
                c.ctx.count("complete encryptions exchanged", 1);
            } else {
                c.refused("decrypt", vec![b(&key), b(&whole)], "a key that is not satisfied");
            }
            c.ctx.eval(Some(&sig));
            if c.ctx.violated() {
                return;
            }
        }
    }
    c.ctx.sample(|| format!("{} max {}", describe(&w), w.m.max));
}

fn v_rows(k: &[u8]) -> usize {
    r::RUk::parse(k).map_or(0, |k| k.m.first().map_or(0, Vec::len))
}

/// One valid call of each function
pub fn valid(rng: &mut Rng) -> Result<Vec<Call>, String> {
    let o = objects::bench(rng, &Profile { plain: true, ..SMALL })?;
    let w = &o.a.w;
    let pol = w.policy.to_string().into_bytes();
    let aj = serde_json::to_vec(&w.m.attrs_of(&o.l)).map_err(|e| e.to_string())?;
    let one = serde_json::to_vec(&w.m.attrs_of(&o.l[..1])).map_err(|e| e.to_string())?;
    let x = w.m.expression(&o.f);
    let mj = meta_bytes(&o.meta);
    let (sk, h) = &o.header;
    let k = |k| b(o.of(k));
    use objects::Kind::{Mdk, Mpk, Msk, Uk};
    let parent = enc(&o.a.key(&o.f)?);
    let block = hy::enc_block(sk, &o.meta.0, 0, b"what is encrypted")?;
    let whole = [&(h.len() as u32).to_be_bytes()[..], h, &block].concat();
    Ok(vec![
        call("generate_policy", vec![b(axes_json(w).as_bytes()), n(w.m.max)]),
        call("rotate_attributes", vec![b(&one), b(&pol)]),
        call("generate_master_keys", vec![b(&pol)]),
        call("generate_user_private_key", vec![k(Msk), s(&x), b(&pol)]),
        call("generate_delegated_key", vec![k(Mdk), b(&parent), s(&x), b(&pol)]),
        call("get_encrypted_header_size", vec![b(&whole)]),
        call("encrypt_hybrid_header", vec![b(&mj), b(&pol), b(&aj), k(Mpk)]),
        call("decrypt_hybrid_header", vec![k(Uk), b(h)]),
        call("decrypt_hybrid_header", vec![k(Uk), b(h)]),
        call("encrypt_hybrid_block", vec![b(sk), b(&o.meta.0), n(3), b(b"some data")]),
        call("decrypt_hybrid_block", vec![b(sk), b(&o.meta.0), n(3), b(&o.block)]),
        call("encrypt", vec![b(&mj), b(&pol), b(&aj), k(Mpk), b(b"some other data")]),
        call("decrypt", vec![k(Uk), b(&whole)]),
        call("decrypt", vec![k(Uk), b(&whole)]),
    ])
}

pub fn hostile(ctx: &mut Ctx, p: &mut Peer, rng: &mut Rng, sweep: bool) {
    let calls = must!(ctx, valid(rng), "setup");
    let odd = [json!(null), json!("text"), json!({"f": "1.5"}), json!({"n": "-300"}), json!([1, 2]), json!([256]), json!(["a"]), json!({"x": 1}), json!([-1])];
    for c in &calls {
        let want = python(c);
        if want.is_err() && c.f != "rotate_attributes" {
            ctx.harness_errors.push(format!("{} is not valid: {:?}", c.f, want.err()));
            return;
        }
        compare(ctx, p, c, want);
    }
    let mut tries = if sweep { shortened(&calls) } else { vec![] };
    for _ in 0..if sweep { 0 } else { 120 } {
        let mut c = rng.pick(&calls).clone();
        let mut how = spoil(rng, &mut c, &calls, &odd);
        if rng.chance(1, 6) {
            how = spoil(rng, &mut c, &calls, &odd);
        }
        if rng.chance(1, 60) {
            c.a.pop();
            how = "too few arguments";
        }
        tries.push((c, how));
    }
    for (mut c, how) in tries {
        if c.a.iter().any(|x| matches!(x, A::Odd(v) if v == &json!([1, 2]))) {
            // a list of small integers is bytes too
            for x in &mut c.a {
                if *x == A::Odd(json!([1, 2])) {
                    *x = b(&[1, 2]);
                }
            }
        }
        let want = ctx.guard(c.f, || python(&c));
        let Some(want) = want else { return };
        compare(ctx, p, &c, want);
        ctx.eval(Some(&format!("{} {how} {}", c.f, rng.u64())));
        if ctx.violated() {
            return;
        }
    }
    // the module is still usable
    let c = rng.pick(&calls);
    compare(ctx, p, c, python(c));
}

fn run(ctx: &mut Ctx) {
    let mut p = start("VMON_PYTHON");
    {
        let missing: Vec<_> = FUNCTIONS.iter().filter(|f| !p.functions.iter().any(|x| x == *f)).collect();
        if !missing.is_empty() {
            ctx.violation(format!("the module lacks {missing:?}"), json!({}));
            return;
        }
    }
    ctx.phase("exchange", 96, 2400, |ctx, rng| scenario(ctx, &mut p, rng, false));
    ctx.phase("large", 4, 60, |ctx, rng| scenario(ctx, &mut p, rng, true));
    ctx.phase("hostile", 64, 1600, |ctx, rng| hostile(ctx, &mut p, rng, false));
    ctx.phase("short", 2, 20, |ctx, rng| hostile(ctx, &mut p, rng, true));
    ctx.count("calls served", p.calls);
    interfaces::alikes(ctx, (0, 10, 0));
}
