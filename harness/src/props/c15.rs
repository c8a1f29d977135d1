use super::*;
use crate::ffi::{self, Args, Place, CANARY, FUNS};
use cosmian_abe_gpsw::interfaces::ffi::{error::*, hybrid_gpsw_aes::h_get_encrypted_header_size};
use serde_json::json;
use std::os::raw::c_int;
use std::sync::Barrier;

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    workers: 4,
    rule: "histories of succeeding and failing calls of every C function, of set_error and of get_last_error, on one thread and on many at once; each failure is first made alone and its description recorded, then must be found unchanged after the same failure in the history, on the thread that caused it only, once; descriptions are read in buffers of every size; distinct = (function, cause) for failures, (length, capacity) for readings, shape of histories",
    floors: &[
        ("failures", 2000), ("causes of failure", 40), ("successes", 300), ("descriptions read", 2000), ("readings without a description", 500),
        ("messages set", 500), ("threads", 100), ("descriptions cut", 300), ("failures of get_last_error", 100), ("null characters", 20),
    ],
    assumptions: &["the monitor does not say whether a later success on the same thread keeps or clears a pending description", MODEL],
};

/// A call that must fail, and what it says when made alone
struct Ill {
    cause: String,
    i: usize,
    args: Args,
    caps: Vec<c_int>,
    says: String,
}

pub fn plain(s: &c13::Scene, rng: &mut Rng, tag: &str) -> Vec<(String, usize, Args, Vec<c_int>)> {
    let mut v: Vec<(String, usize, Args, Vec<c_int>)> = vec![];
    let big = |i: usize| vec![16384; FUNS[i].outs];
    let mut add = |cause: &str, i: usize, args: Args| v.push((format!("{} {cause}", FUNS[i].name), i, args, big(i)));
    let cut = |rng: &mut Rng, b: &[u8]| b[..rng.range(1, b.len() - 1)].to_vec();
    let cut_text = |rng: &mut Rng, b: &[u8]| {
        let mut n = rng.range(1, b.len() - 1);
        while std::str::from_utf8(&b[..n]).is_err() {
            n -= 1;
        }
        b[..n].to_vec()
    };
    let unknown = format!("[{{\"axis\":\"{tag}\",\"name\":\"{tag}\"}}]");
    let unknown = match serde_json::from_str::<Vec<abe_policy::Attribute>>(&unknown) {
        Ok(_) => unknown,
        Err(_) => serde_json::to_string(&vec![abe_policy::Attribute { axis: tag.to_string(), name: tag.to_string() }]).unwrap(),
    };
    let bad_access = serde_json::to_string(&(s.a.w.m.access(&s.f)
        & abe_policy::AccessPolicy::Attr(abe_policy::Attribute { axis: tag.to_string(), name: tag.to_string() })))
    .unwrap();
    let with = |mut a: Args, k: usize, b: Vec<u8>| {
        a.ins[k] = Some(b);
        a
    };
    let text = |mut a: Args, k: usize, b: Vec<u8>| {
        a.strs[k] = b;
        a
    };
    let msk = s.sb.clone();
    let at = |i: usize| s.args(i);
    add("policy cut", ffi::MASTER, text(at(ffi::MASTER), 0, cut_text(rng, s.pj.as_bytes())));
    add("policy of another kind", ffi::MASTER, text(at(ffi::MASTER), 0, format!("\"{tag}\"").into_bytes()));
    add("policy not UTF-8", ffi::MASTER, text(at(ffi::MASTER), 0, vec![0xFF, 0xFE]));
    add("key cut", ffi::USER, with(at(ffi::USER), 0, cut(rng, &msk)));
    add("access policy cut", ffi::USER, text(at(ffi::USER), 0, cut_text(rng, s.access.as_bytes())));
    add("unknown attribute", ffi::USER, text(at(ffi::USER), 0, bad_access.into_bytes()));
    add("policy cut", ffi::USER, text(at(ffi::USER), 1, cut_text(rng, s.pj.as_bytes())));
    add("unknown attribute", ffi::ROTATE, text(at(ffi::ROTATE), 0, unknown.clone().into_bytes()));
    add("attributes cut", ffi::ROTATE, text(at(ffi::ROTATE), 0, b"[\"".to_vec()));
    add("policy cut", ffi::ROTATE, text(at(ffi::ROTATE), 1, cut_text(rng, s.pj.as_bytes())));
    add("key cut", ffi::ENC_CREATE, with(at(ffi::ENC_CREATE), 0, cut(rng, &s.mb)));
    add("policy cut", ffi::ENC_CREATE, text(at(ffi::ENC_CREATE), 0, cut_text(rng, s.pj.as_bytes())));
    let mut a = at(ffi::ENC_CACHED);
    a.int = 1_000_000_000 + rng.below(1_000_000) as c_int;
    add("unknown cache", ffi::ENC_CACHED, a);
    add("unknown attribute", ffi::ENC_CACHED, text(at(ffi::ENC_CACHED), 0, unknown.clone().into_bytes()));
    add("attributes cut", ffi::ENC_CACHED, text(at(ffi::ENC_CACHED), 0, b"[".to_vec()));
    add("unknown attribute", ffi::ENC, text(at(ffi::ENC), 1, unknown.into_bytes()));
    add("key cut", ffi::ENC, with(at(ffi::ENC), 0, cut(rng, &s.mb)));
    add("policy cut", ffi::ENC, text(at(ffi::ENC), 0, cut_text(rng, s.pj.as_bytes())));
    add("key cut", ffi::DEC_CREATE, with(at(ffi::DEC_CREATE), 0, cut(rng, &s.kb)));
    let mut a = at(ffi::DEC_CACHED);
    a.int = 1_000_000_000 + rng.below(1_000_000) as c_int;
    add("unknown cache", ffi::DEC_CACHED, a);
    // the encapsulation alone is a header without metadata: cut before its end
    let n = u32::from_be_bytes(s.header.1[..4].try_into().unwrap()) as usize;
    add("header cut", ffi::DEC_CACHED, with(at(ffi::DEC_CACHED), 0, cut(rng, &s.header.1[..n])));
    add("header cut", ffi::DEC, with(at(ffi::DEC), 0, cut(rng, &s.header.1[..n])));
    add("key cut", ffi::DEC, with(at(ffi::DEC), 1, cut(rng, &s.kb)));
    let mut h = s.header.1.clone();
    let last = h.len() - 1;
    h[last] ^= 1 << rng.below(8);
    add("metadata altered", ffi::DEC, with(at(ffi::DEC), 0, h));
    if let Some(h) = &s.closed {
        add("unsatisfied", ffi::DEC, with(at(ffi::DEC), 0, h.clone()));
        add("unsatisfied", ffi::DEC_CACHED, with(at(ffi::DEC_CACHED), 0, h.clone()));
    }
    add("key cut", ffi::BLOCK_ENC, with(at(ffi::BLOCK_ENC), 0, cut(rng, &s.header.0)));
    add("key too long", ffi::BLOCK_ENC, with(at(ffi::BLOCK_ENC), 0, [&s.header.0[..], &[1]].concat()));
    add("key cut", ffi::BLOCK_DEC, with(at(ffi::BLOCK_DEC), 0, cut(rng, &s.header.0)));
    add("block cut", ffi::BLOCK_DEC, with(at(ffi::BLOCK_DEC), 2, cut(rng, &s.block)));
    let mut b = s.block.clone();
    let p = rng.below(b.len());
    b[p] ^= 1 << rng.below(8);
    add("block altered", ffi::BLOCK_DEC, with(at(ffi::BLOCK_DEC), 2, b));
    let mut a = at(ffi::BLOCK_DEC);
    a.int ^= 1 << rng.below(20);
    add("other block number", ffi::BLOCK_DEC, a);
    add("other identifier", ffi::BLOCK_DEC, with(at(ffi::BLOCK_DEC), 1, [&s.meta.0[..], &[0]].concat()));
    for i in [ffi::MASTER, ffi::USER, ffi::ROTATE, ffi::ENC_CACHED, ffi::ENC, ffi::DEC_CACHED, ffi::DEC, ffi::BLOCK_ENC, ffi::BLOCK_DEC] {
        let mut c = big(i);
        let k = if FUNS[i].outs > 1 && rng.chance(1, 2) && !FUNS[i].optional_outs.contains(&1) { 1 } else { 0 };
        // at most one of the bytes of an identifier or a block of one byte
        c[k] = *rng.pick(&[0, -1]);
        v.push((format!("{} capacity {}", FUNS[i].name, c[k]), i, s.args(i), c));
        let mut c = big(i);
        c[k] = 1;
        let needed = match i {
            ffi::BLOCK_DEC => s.data.len() > 1,
            _ => true,
        };
        if needed {
            v.push((format!("{} capacity 1", FUNS[i].name), i, s.args(i), c));
        }
    }
    v
}

/// A failing call, made alone twice: what it says
fn learn(ctx: &mut Ctx, list: Vec<(String, usize, Args, Vec<c_int>)>) -> Option<Vec<Ill>> {
    let mut out = vec![];
    for (cause, i, args, caps) in list {
        let mut says = String::new();
        for round in 0..2 {
            ffi::last_error();
            ctx.journal(&cause);
            let r = ffi::call(&FUNS[i], &args, &caps, Place::Heap);
            let e = ffi::last_error();
            ctx.count("failures", 1);
            ctx.eval(Some(&cause));
            if r.rc == 0 {
                ctx.violation(format!("{cause}: success"), json!({"says": e}));
                return None;
            }
            if e.is_empty() || e.starts_with("get_last_error") {
                ctx.violation(format!("{cause}: no description ({e:?})"), json!({}));
                return None;
            }
            let again = ffi::last_error();
            ctx.count("descriptions read", 1);
            ctx.count("readings without a description", 1);
            if !again.is_empty() {
                ctx.violation(format!("{cause}: the description is given twice"), json!({"first": e, "second": again}));
                return None;
            }
            if round == 1 && e != says {
                // not a text that can be compared
                ctx.count("descriptions that vary", 1);
                says.clear();
            } else {
                says = e;
            }
        }
        if !says.is_empty() {
            out.push(Ill { cause, i, args, caps, says });
        }
    }
    Some(out)
}

fn setup(ctx: &mut Ctx, rng: &mut Rng) -> Option<c13::Scene> {
    match c13::Scene::new(rng) {
        Ok(s) => Some(s),
        Err(e) => {
            ctx.violation(format!("setup failed: {e}"), json!({}));
            None
        }
    }
}

fn set(msg: &str) -> c_int {
    let c = std::ffi::CString::new(msg).expect("message");
    unsafe { set_error(c.as_ptr()) }
}

/// What set_error puts before a message
fn prefix() -> Option<String> {
    set("@@@");
    ffi::last_error().strip_suffix("@@@").map(String::from)
}

fn fails_to_read(rng: &mut Rng) -> c_int {
    let mut b = [CANARY; 8];
    let mut n: c_int = 8;
    unsafe {
        match rng.below(4) {
            0 => get_last_error(std::ptr::null_mut(), &mut n),
            1 => get_last_error(b.as_mut_ptr().cast(), std::ptr::null_mut()),
            2 => {
                n = 0;
                get_last_error(b.as_mut_ptr().cast(), &mut n)
            }
            _ => {
                n = -1;
                get_last_error(b.as_mut_ptr().cast(), &mut n)
            }
        }
    }
}

#[derive(Default)]
struct Seen {
    failures: u64,
    successes: u64,
    read: u64,
    empty: u64,
    set: u64,
    failed_reads: u64,
    bad: Option<String>,
    shape: String,
}

/// A history on this thread, checked step by step
fn history(rng: &mut Rng, s: &c13::Scene, ills: &[Ill], pre: &str, tag: &str, steps: usize) -> Seen {
    let mut seen = Seen::default();
    // what may be pending: empty at the start of a thread
    let mut pending: Vec<String> = vec![String::new()];
    let mut n = 0;
    for step in 0..steps {
        match rng.below(10) {
            0..=3 => {
                let x = rng.pick(ills);
                let r = ffi::call(&FUNS[x.i], &x.args, &x.caps, Place::Heap);
                seen.failures += 1;
                seen.shape.push('f');
                if r.rc == 0 {
                    seen.bad = Some(format!("step {step}: {}: success", x.cause));
                    return seen;
                }
                pending = vec![x.says.clone()];
            }
            4 => {
                let i = *rng.pick(&[ffi::ROTATE, ffi::BLOCK_ENC, ffi::BLOCK_DEC, ffi::DEC, ffi::DEC_CACHED, ffi::ENC_CACHED, ffi::BLOCK_DEC]);
                let f = &FUNS[i];
                let r = ffi::call(f, &s.args(i), &vec![16384; f.outs], Place::Heap);
                seen.successes += 1;
                seen.shape.push('s');
                let outs: Vec<Vec<u8>> = r.outs.iter().zip(&r.lens).map(|(o, l)| o[..(*l).max(0) as usize].to_vec()).collect();
                if r.rc != 0 || !s.right(i, &outs) {
                    seen.bad = Some(format!("step {step}: {}: result {} for a valid call, or a wrong output", f.name, r.rc));
                    return seen;
                }
                pending.push(String::new());
            }
            5 => {
                n += 1;
                let m = format!("{tag} message {n} {}", "é".repeat(rng.below(30)));
                // also what a reading may have given, and what formatting would alter
                let m = match rng.below(12) {
                    0 => format!("{pre}{m}"),
                    1 => format!("{pre}{pre}{m}"),
                    2 => pre.to_string(),
                    3 => format!("  {m}\n\t "),
                    4 => format!("{{}} {{0}} %s %n \\ {m} {{"),
                    5 => rng.pick(ills).says.clone(),
                    6 => ["Deserialize error: ", "Invalid NULL pointer passed for: ", "error: "][rng.below(3)].to_string() + &m,
                    _ => m,
                };
                seen.set += 1;
                seen.shape.push('m');
                if set(&m) != 0 {
                    seen.bad = Some(format!("step {step}: set_error failed"));
                    return seen;
                }
                pending = vec![format!("{pre}{m}")];
            }
            6 => {
                seen.failed_reads += 1;
                seen.shape.push('x');
                if fails_to_read(rng) == 0 {
                    seen.bad = Some(format!("step {step}: get_last_error succeeds without a buffer"));
                    return seen;
                }
            }
            7 => {
                std::thread::yield_now();
            }
            _ => {
                let e = ffi::last_error();
                seen.shape.push('r');
                if e.is_empty() {
                    seen.empty += 1;
                } else {
                    seen.read += 1;
                }
                if !pending.contains(&e) {
                    seen.bad = Some(format!("step {step}: {tag}: the description is {e:?} instead of {pending:?}"));
                    return seen;
                }
                pending = vec![String::new()];
            }
        }
    }
    seen
}

fn report(ctx: &mut Ctx, seen: Seen) -> bool {
    ctx.count("failures", seen.failures);
    ctx.count("successes", seen.successes);
    ctx.count("descriptions read", seen.read);
    ctx.count("readings without a description", seen.empty);
    ctx.count("messages set", seen.set);
    ctx.count("failures of get_last_error", seen.failed_reads);
    ctx.eval(Some(&seen.shape));
    if let Some(b) = seen.bad {
        ctx.violation(b, json!({"history": seen.shape}));
        return false;
    }
    true
}

fn sequential(ctx: &mut Ctx, rng: &mut Rng) {
    let Some(s) = setup(ctx, rng) else { return };
    let list = plain(&s, rng, "axis-of-nobody");
    let Some(ills) = learn(ctx, list) else { return };
    let causes: std::collections::BTreeSet<_> = ills.iter().map(|x| &x.cause).collect();
    ctx.count("causes of failure", causes.len() as u64);
    if ctx.case() == 0 {
        ctx.sample(|| ills.iter().map(|x| format!("{} => {}", x.cause, x.says.chars().take(60).collect::<String>())).collect::<Vec<_>>().join("\n"));
    }
    let pre = match prefix() {
        Some(p) => p,
        None => {
            ctx.violation("the message set is not given back", json!({}));
            return;
        }
    };
    let steps = ctx.n(150, 600) as usize;
    let seen = history(rng, &s, &ills, &pre, "main", steps);
    report(ctx, seen);
    ffi::last_error();
    s.close();
}

fn threads(ctx: &mut Ctx, rng: &mut Rng) {
    let Some(s) = setup(ctx, rng) else { return };
    let n = rng.range(2, 16);
    let Some(pre) = prefix() else {
        ctx.violation("the message set is not given back", json!({}));
        return;
    };
    // each thread has failures of its own, with its own name in them
    let mut work = vec![];
    for t in 0..n {
        let tag = format!("thread{t}of{n}case{}", ctx.case());
        let mut list = plain(&s, rng, &tag);
        rng.shuffle(&mut list);
        list.truncate(10);
        let Some(ills) = learn(ctx, list) else { return };
        work.push((tag, ills, rng.fork()));
    }
    let steps = ctx.n(80, 300) as usize;
    let gate = Barrier::new(n);
    ctx.journal("concurrent histories");
    let (s2, pre2, gate2) = (&s, pre.as_str(), &gate);
    let seen: Vec<(Seen, Option<String>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = work
            .iter_mut()
            .map(|(tag, ills, r)| {
                sc.spawn(move || {
                    let mut lost = None;
                    // all fail, then all look
                    for x in ills.iter().take(4) {
                        gate2.wait();
                        let a = ffi::call(&FUNS[x.i], &x.args, &x.caps, Place::Heap);
                        gate2.wait();
                        let e = ffi::last_error();
                        if lost.is_none() && (a.rc == 0 || e != x.says) {
                            lost = Some(format!("{}: the description is {e:?} instead of {:?} (result {})", x.cause, x.says, a.rc));
                        }
                    }
                    // every second thread fails, the others have nothing to read
                    let odd = tag.as_bytes()[6] % 2 == 1;
                    if odd {
                        set(&format!("{tag} alone"));
                    }
                    gate2.wait();
                    let e = ffi::last_error();
                    let want = if odd { format!("{pre2}{tag} alone") } else { String::new() };
                    if lost.is_none() && e != want {
                        lost = Some(format!("the description is {e:?} instead of {want:?}"));
                    }
                    let h = history(r, s2, ills, pre2, tag, steps);
                    // leaves something for whoever takes its place
                    set(&format!("{tag} is over"));
                    (h, lost)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (Seen { bad: Some("a thread panicked".into()), ..Default::default() }, None))).collect()
    });
    ctx.count("threads", n as u64);
    for (h, lost) in seen {
        ctx.count("descriptions read", 5);
        if let Some(l) = lost {
            ctx.violation(l, json!({"threads": n}));
            return;
        }
        if !report(ctx, h) {
            return;
        }
    }
    // threads that come later, and this one, have nothing to read
    let late: Vec<String> = (0..n).map(|_| std::thread::spawn(ffi::last_error).join().unwrap_or_default()).chain([ffi::last_error()]).collect();
    ctx.count("readings without a description", n as u64 + 1);
    if let Some(x) = late.iter().find(|x| !x.is_empty()) {
        ctx.violation(format!("a thread that did nothing reads {x:?}"), json!({}));
    }
    s.close();
}

/// The description in a buffer of every size
fn cuts(ctx: &mut Ctx, rng: &mut Rng) {
    let words = ["a", "erreur ", "é", "機密", "\u{1F511}", "x\u{301}", "\n", "\"", "\u{7f}"];
    let mut msg = String::new();
    for _ in 0..rng.range(0, 30) {
        msg.push_str(rng.pick::<&str>(&words));
    }
    if rng.chance(1, 8) {
        msg = msg.repeat(rng.range(10, 400));
    }
    let Some(pre) = prefix() else {
        ctx.violation("the message set is not given back", json!({}));
        return;
    };
    let whole = format!("{pre}{msg}");
    let mut caps: Vec<usize> = (1..(whole.len() + 4).min(120)).collect();
    caps.extend([whole.len().max(1), whole.len() + 1, whole.len() + 2, whole.len() + 5000, rng.range(1, whole.len() + 1)]);
    for cap in caps {
        set(&msg);
        let mut b = vec![CANARY; cap];
        let mut n = cap as c_int;
        ctx.journal(&format!("get_last_error with {cap} bytes"));
        let rc = unsafe { get_last_error(b.as_mut_ptr().cast(), &mut n) };
        let mut want = whole.len().min(cap - 1);
        while !whole.is_char_boundary(want) {
            want -= 1;
        }
        ctx.count("descriptions read", 1);
        ctx.count("messages set", 1);
        if want < whole.len() {
            ctx.count("descriptions cut", 1);
        }
        ctx.eval(Some(&format!("{} {cap}", whole.len())));
        if rc != 0 || n != want as c_int || b[..want] != whole.as_bytes()[..want] || b[want] != 0 {
            ctx.violation(
                format!("get_last_error: result {rc}, length {n} for a capacity of {cap}, {want} bytes expected"),
                json!({"message": whole, "read": hex::encode(&b)}),
            );
            return;
        }
        let rest = ffi::last_error();
        ctx.count("readings without a description", 1);
        if !rest.is_empty() {
            ctx.violation("a description cut is given again", json!({"rest": rest}));
            return;
        }
    }
    // the last one wins
    set("first");
    set(&msg);
    let e = ffi::last_error();
    if whole.len() < 16000 && e != whole {
        ctx.violation(format!("the description is {e:?} instead of {whole:?}"), json!({}));
    }
    // a message that cannot be set is a failure like any other
    let bad = [0x61u8, 0xFF, 0];
    let rc = unsafe { set_error(bad.as_ptr().cast()) };
    let e = ffi::last_error();
    let rc2 = unsafe { set_error(std::ptr::null()) };
    let e2 = ffi::last_error();
    ctx.count("failures", 2);
    if rc == 0 || e.is_empty() || rc2 == 0 || e2.is_empty() {
        ctx.violation(format!("set_error: results {rc} and {rc2}, descriptions {e:?} and {e2:?}"), json!({}));
    }
    // header size
    let x = [0u8; 3];
    unsafe { h_get_encrypted_header_size(x.as_ptr().cast(), 3) };
    if ffi::last_error().is_empty() {
        ctx.violation("h_get_encrypted_header_size: no description for 3 bytes", json!({}));
    }
}

/// Null characters inside the texts of a request, which may come back in the description
fn null_characters(ctx: &mut Ctx, rng: &mut Rng) {
    let Some(s) = setup(ctx, rng) else { return };
    let nul = "\\u0000";
    let texts = [
        format!("{{\"{nul}X\": []}}"),
        format!("{{\"Attr\": \"A{nul}::B\"}}"),
        format!("{{\"Attr\": {{\"axis\":\"A{nul}\",\"name\":\"B{nul}\"}}}}"),
        format!("\"{nul}\""),
        format!("[\"A{nul}::B\"]"),
        format!("[{{\"axis\":\"A{nul}\",\"name\":\"B\"}}]"),
        format!("[\"{nul}\"]"),
        format!("{{\"axes\":{{\"{nul}\":1}}}}"),
        format!("{{\"{nul}\":{{}}}}"),
        format!("{{\"last_attribute_value\":\"{nul}\"}}"),
        format!("{{\"last_attribute_value\":1,\"max_attribute_value\":2,\"store\":{{\"A{nul}\":[[\"B{nul}\"],\"{nul}\"]}}}}"),
    ];
    for i in 0..FUNS.len() {
        for k in 0..FUNS[i].strs {
            for t in &texts {
                let mut a = s.args(i);
                a.strs[k] = t.clone().into_bytes();
                ctx.journal(&format!("{} with {t}", FUNS[i].name));
                ffi::last_error();
                let r = ffi::call(&FUNS[i], &a, &vec![16384; FUNS[i].outs], Place::Heap);
                ctx.count("null characters", 1);
                ctx.eval(Some(&format!("{} {k} {t}", FUNS[i].name)));
                if r.rc == 0 {
                    continue;
                }
                let mut b = vec![CANARY; 4096];
                let mut n = 4096;
                let rc = unsafe { get_last_error(b.as_mut_ptr().cast(), &mut n) };
                ctx.count("failures", 1);
                ctx.count("descriptions read", 1);
                if rc != 0 || n <= 0 || n >= 4096 || b[n as usize] != 0 || std::str::from_utf8(&b[..n as usize]).is_err() || b[..n as usize].contains(&0) {
                    ctx.violation(
                        format!("{}: its error has no description: result {rc}, length {n}", FUNS[i].name),
                        json!({"argument": t, "read": String::from_utf8_lossy(&b[..n.clamp(0, 4096) as usize])}),
                    );
                    return;
                }
            }
        }
    }
    s.close();
}

fn run(ctx: &mut Ctx) {
    ctx.phase("sequential", 16, 300, sequential);
    ctx.phase("threads", 24, 400, threads);
    ctx.phase("cuts", 40, 800, cuts);
    ctx.phase("null characters", 2, 20, null_characters);
}
