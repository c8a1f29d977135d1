//! What C16 (Python) and C17 (WebAssembly) share: the native counterpart of
//! each function of the modules, and the comparison of one call made on both.
use super::*;
use crate::peer::{Fail, Peer, A, R};
use crate::reference as r;
use abe_policy::{AccessPolicy, Attribute, Attributes, Policy, PolicyAxis};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::EncryptedHeader;
use serde_json::json;
use std::collections::HashMap;


#[derive(Clone, Debug)]
pub struct Call {
    pub f: &'static str,
    pub a: Vec<A>,
}

pub fn call(f: &'static str, a: Vec<A>) -> Call {
    Call { f, a }
}

/// How the outputs of the two sides relate
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    Same,
    Policy,
    /// random: same length
    Length,
    /// a user key: same access structure
    Key,
    /// a header in the place given: encapsulated for the same attributes
    Header(usize),
    /// a symmetric key and a header, with their length
    Pair,
    /// a length, a header, a block
    Complete,
}

/// Handles of the caches, and what they hold
#[derive(Default)]
pub struct Caches {
    pub enc: HashMap<i128, (Policy, Mpk)>,
    pub dec: HashMap<i128, Uk>,
}

type N = Result<Vec<Vec<u8>>, String>;

fn e<T, X: std::fmt::Display>(x: Result<T, X>) -> Result<T, String> {
    x.map_err(|e| e.to_string())
}

struct Args<'a>(&'a [A]);
impl<'a> Args<'a> {
    fn b(&self, i: usize) -> Result<&'a [u8], String> {
        match self.0.get(i) {
            Some(A::B(x)) => Ok(x),
            x => Err(format!("not bytes: {x:?}")),
        }
    }
    fn s(&self, i: usize) -> Result<&'a str, String> {
        match self.0.get(i) {
            Some(A::S(x)) => Ok(x),
            x => Err(format!("not a text: {x:?}")),
        }
    }
    fn n(&self, i: usize) -> Result<i128, String> {
        match self.0.get(i) {
            Some(A::N(x)) => Ok(*x),
            x => Err(format!("not a number: {x:?}")),
        }
    }
    fn filled(&self, i: usize) -> Result<&'a [u8], String> {
        let x = self.b(i)?;
        if x.is_empty() {
            return Err("empty".into());
        }
        Ok(x)
    }
    fn opt(&self, i: usize) -> Result<&'a [u8], String> {
        match self.0.get(i) {
            Some(A::Null) => Ok(&[]),
            _ => self.b(i),
        }
    }
    fn json<T: for<'de> serde::Deserialize<'de>>(&self, i: usize) -> Result<T, String> {
        e(serde_json::from_slice(self.b(i)?))
    }
    fn policy(&self, i: usize) -> Result<Policy, String> {
        self.json(i)
    }
}

pub const TOO_LARGE: &str = "too large to be tried";

/// Whether such a text is refused is not told: it is answered
pub const DEEP: &str = "a text so deep that it may be refused";

fn text(x: &str) -> Result<AccessPolicy, String> {
    if crate::model::nesting(x) > 1500 {
        return Err(DEEP.into());
    }
    crate::model::read_text(x)
}

pub fn skipped<T>(r: &Result<T, String>) -> bool {
    r.as_ref().err().is_some_and(|m| m == TOO_LARGE || m == DEEP)
}

fn master(p: &Policy) -> Result<(Vec<u8>, Vec<u8>, Vec<u8>), String> {
    if p.max_attribute_creations > 300 {
        return Err(TOO_LARGE.into());
    }
    let (a, b, c) = e(Eng::new().generate_master_key(p))?;
    Ok((enc(&a), enc(&b), enc(&c)))
}

fn user(msk: &[u8], x: &str, p: &Policy) -> Result<Vec<u8>, String> {
    let msk: Msk = e(dec(msk))?;
    let x = text(x)?;
    Ok(enc(&e(Eng::new().generate_user_key(p, &msk, &x))?))
}

fn rotate(l: &[Attribute], mut p: Policy) -> Result<Policy, String> {
    for a in l {
        e(p.rotate(a))?;
    }
    Ok(p)
}

fn pbytes(p: &Policy) -> Vec<u8> {
    serde_json::to_vec(p).expect("policy")
}

fn meta_json(b: &[u8]) -> Result<hy::Meta, String> {
    let m: hy::Metadata = e(serde_json::from_slice(b))?;
    Ok((m.uid, m.additional_data))
}

pub fn uint(x: i128, max: u64) -> Result<usize, String> {
    if x < 0 || x > i128::from(max) {
        return Err(format!("out of range: {x}"));
    }
    Ok(x as usize)
}

fn flat((k, m): (Vec<u8>, hy::Meta)) -> Vec<Vec<u8>> {
    vec![k, r::meta_bytes(&m.0, m.1.as_deref())]
}

/// The functions of the Python module
pub fn python(c: &Call) -> N {
    let a = Args(&c.a);
    let seal = |m: &[u8], p: Policy, l: Vec<Attribute>, k: &[u8]| -> Result<(Vec<u8>, Vec<u8>), String> {
        let m = meta_json(m)?;
        let k: Mpk = e(dec(k))?;
        e(hy::encrypt_header(&p, &k, &l, Some(&m)))
    };
    let arity = match c.f {
        "generate_master_keys" | "get_encrypted_header_size" => 1,
        "generate_policy" | "rotate_attributes" | "decrypt_hybrid_header" | "decrypt" => 2,
        "generate_user_private_key" => 3,
        "encrypt" => 5,
        _ => 4,
    };
    if c.a.len() != arity {
        return Err("number of arguments".into());
    }
    match c.f {
        "generate_master_keys" => master(&a.policy(0)?).map(|(x, y, z)| vec![x, y, z]),
        "generate_user_private_key" => Ok(vec![user(a.b(0)?, a.s(1)?, &a.policy(2)?)?]),
        "generate_delegated_key" => {
            let mdk: Mdk = e(dec(a.b(0)?))?;
            let uk: Uk = e(dec(a.b(1)?))?;
            let x = text(a.s(2)?)?;
            Ok(vec![enc(&e(Eng::new().delegate_user_key(&a.policy(3)?, &mdk, &uk, &x))?)])
        }
        "generate_policy" => {
            let axes: Vec<PolicyAxis> = a.json(0)?;
            let mut p = Policy::new(uint(a.n(1)?, u64::from(u32::MAX))? as u32);
            for x in &axes {
                let l = x.attributes.iter().map(String::as_str).collect::<Vec<_>>();
                e(p.add_axis(&PolicyAxis::new(&x.name, &l, x.hierarchical)))?;
            }
            Ok(vec![pbytes(&p)])
        }
        "rotate_attributes" => Ok(vec![pbytes(&rotate(&a.json::<Vec<Attribute>>(0)?, a.policy(1)?)?)]),
        "get_encrypted_header_size" => {
            let b = a.b(0)?;
            if b.len() < 4 {
                return Err("short".into());
            }
            Ok(vec![b[..4].to_vec()])
        }
        "encrypt_hybrid_header" => {
            let (k, h) = seal(a.b(0)?, a.policy(1)?, a.json(2)?, a.b(3)?)?;
            Ok(vec![k, h])
        }
        "decrypt_hybrid_header" => Ok(flat(e(hy::decrypt_header(&e(dec(a.b(0)?))?, a.b(1)?))?)),
        "encrypt_hybrid_block" => Ok(vec![hy::enc_block(a.b(0)?, a.b(1)?, uint(a.n(2)?, u64::MAX)?, a.b(3)?)?]),
        "decrypt_hybrid_block" => Ok(vec![hy::dec_block(a.b(0)?, a.b(1)?, uint(a.n(2)?, u64::MAX)?, a.b(3)?)?]),
        "encrypt" => {
            let (k, h) = seal(a.b(0)?, a.policy(1)?, a.json(2)?, a.b(3)?)?;
            let b = hy::enc_block(&k, &meta_json(a.b(0)?)?.0, 0, a.b(4)?)?;
            Ok(vec![[&(h.len() as u32).to_be_bytes()[..], &h, &b].concat()])
        }
        "decrypt" => {
            let d = a.b(1)?;
            let n = d.get(..4).ok_or("short")?;
            let n = u32::from_be_bytes(n.try_into().expect("4")) as usize;
            let h = d.get(4..4 + n).ok_or("header size")?;
            let (k, m) = e(hy::decrypt_header(&e(dec(a.b(0)?))?, h))?;
            Ok(vec![hy::dec_block(&k, &m.0, 0, &d[4 + n..])?])
        }
        f => panic!("no native counterpart for {f}"),
    }
}

fn clear(k: &Uk, h: &[u8]) -> N {
    let h = e(hy::decrypt_hybrid_header::<Sch, hy::Aes>(k, h))?;
    Ok(vec![e(h.try_into_bytes())?])
}

fn sealed(p: &Policy, k: &Mpk, l: &str, uid: &[u8]) -> N {
    let l = e(Attributes::try_from(l))?;
    let m = hy::metadata(&(uid.to_vec(), None));
    let h: EncryptedHeader<hy::Aes> = e(hy::encrypt_hybrid_header::<Sch, hy::Aes>(p, k, &l, Some(m)))?;
    Ok(vec![e(h.try_into_bytes())?])
}

/// The functions of the WebAssembly module
pub fn wasm(c: &Call, caches: &Caches) -> N {
    let a = Args(&c.a);
    let key32 = |i| {
        let k = a.b(i)?;
        if k.len() == 32 { Ok(k) } else { Err("symmetric key size".to_string()) }
    };
    // handles and numbers are converted to 32 bits by the language
    let block_number = |i| match c.a.get(i) {
        Some(A::Null) => Ok(0),
        _ => a.n(i).map(|n| n as u32 as usize),
    };
    let handle = |i| a.n(i).map(|n| i128::from(n as i32));
    match c.f.strip_prefix("webassembly_").unwrap_or(c.f) {
        "generate_master_keys" => {
            let (x, y, _) = master(&a.policy(0)?)?;
            Ok(vec![[&(x.len() as u32).to_be_bytes()[..], &x, &y].concat()])
        }
        "generate_user_private_key" => Ok(vec![user(a.b(0)?, a.s(1)?, &a.policy(2)?)?]),
        "rotate_attributes" => Ok(vec![pbytes(&rotate(&a.json::<Vec<Attribute>>(0)?, a.policy(1)?)?)]),
        "get_encrypted_header_size" => {
            let b = a.b(0)?;
            if b.len() < 4 {
                return Err("short".into());
            }
            Ok(vec![b[..4].to_vec()])
        }
        "encrypt_hybrid_header" => sealed(&a.policy(0)?, &e(dec(a.filled(1)?))?, a.s(2)?, a.filled(3)?),
        "decrypt_hybrid_header" => clear(&e(dec(a.filled(0)?))?, a.b(1)?),
        "create_encryption_cache" => {
            a.policy(0)?;
            let _: Mpk = e(dec(a.filled(1)?))?;
            Ok(vec![vec![0; 4]])
        }
        "create_decryption_cache" => {
            let _: Uk = e(dec(a.filled(0)?))?;
            Ok(vec![vec![0; 4]])
        }
        "destroy_encryption_cache" | "destroy_decryption_cache" => a.n(0).map(|_| vec![]),
        "encrypt_hybrid_header_using_cache" => {
            let (p, k) = caches.enc.get(&handle(0)?).ok_or("no such cache")?;
            sealed(p, k, a.s(1)?, a.b(2)?)
        }
        "decrypt_hybrid_header_using_cache" => clear(caches.dec.get(&handle(0)?).ok_or("no such cache")?, a.b(1)?),
        "encrypt_hybrid_block" => {
            let k = key32(0)?;
            Ok(vec![hy::enc_block(k, a.opt(1)?, block_number(2)?, a.b(3)?)?])
        }
        "decrypt_hybrid_block" => {
            let k = key32(0)?;
            Ok(vec![hy::dec_block(k, a.opt(1)?, block_number(2)?, a.b(3)?)?])
        }
        f => panic!("no native counterpart for {f}"),
    }
}

/// The C functions
pub fn c_functions(c: &Call, caches: &Caches) -> N {
    let a = Args(&c.a);
    fn js<T: for<'de> serde::Deserialize<'de>>(x: Result<&str, String>) -> Result<T, String> {
        e(serde_json::from_str(x?))
    }
    let three = |x: Result<(Vec<u8>, hy::Meta), _>| -> N {
        let (k, m) = e(x)?;
        Ok(vec![k, m.0, m.1.unwrap_or_default()])
    };
    let seal = |p: &Policy, k: &Mpk, i: usize| -> N {
        let m = (a.b(i + 1)?.to_vec(), Some(a.b(i + 2)?.to_vec()).filter(|x| !x.is_empty()));
        let l: Vec<Attribute> = js(a.s(i))?;
        let (k, h) = e(hy::encrypt_header(p, k, &l, Some(&m)))?;
        Ok(vec![k, h])
    };
    match c.f {
        "h_generate_master_keys" => {
            let (x, y, _) = master(&js(a.s(0))?)?;
            Ok(vec![[&(x.len() as u32).to_be_bytes()[..], &x, &y].concat()])
        }
        "h_generate_user_private_key" => {
            let k: Msk = e(dec(a.filled(0)?))?;
            let (x, p): (AccessPolicy, Policy) = (js(a.s(1))?, js(a.s(2))?);
            Ok(vec![enc(&e(Eng::new().generate_user_key(&p, &k, &x))?)])
        }
        "h_rotate_attributes" => Ok(vec![rotate(&js::<Vec<Attribute>>(a.s(0))?, js(a.s(1))?)?.to_string().into_bytes()]),
        "h_aes_create_encryption_cache" => {
            let _: Policy = js(a.s(0))?;
            let _: Mpk = e(dec(a.filled(1)?))?;
            Ok(vec![vec![0; 4]])
        }
        "h_aes_create_decryption_cache" => {
            let _: Uk = e(dec(a.filled(0)?))?;
            Ok(vec![vec![0; 4]])
        }
        "h_aes_encrypt_header_using_cache" => {
            let (p, k) = caches.enc.get(&a.n(0)?).ok_or("no such cache")?;
            seal(p, k, 1)
        }
        "h_aes_encrypt_header" => seal(&js(a.s(0))?, &e(dec(a.filled(1)?))?, 2),
        "h_aes_decrypt_header_using_cache" => {
            three(hy::decrypt_header(caches.dec.get(&a.n(0)?).ok_or("no such cache")?, a.filled(1)?))
        }
        "h_aes_decrypt_header" => three(hy::decrypt_header(&e(dec(a.filled(1)?))?, a.filled(0)?)),
        "h_aes_encrypt_block" => Ok(vec![hy::enc_block(a.filled(0)?, a.b(1)?, a.n(2)? as usize, a.filled(3)?)?]),
        "h_aes_decrypt_block" => Ok(vec![hy::dec_block(a.filled(0)?, a.b(1)?, a.n(2)? as usize, a.filled(3)?)?]),
        f => panic!("no native counterpart for {f}"),
    }
}

/// How the outputs of a function relate on the two sides
pub fn relation(f: &str) -> Out {
    let plain = f.strip_prefix("webassembly_").or(f.strip_prefix("h_aes_")).or(f.strip_prefix("h_"));
    match plain.unwrap_or(f) {
        "encrypt_header" | "encrypt_header_using_cache" => Out::Pair,
        "encrypt_block" => Out::Length,
        "generate_policy" | "rotate_attributes" => Out::Policy,
        "generate_user_private_key" | "generate_delegated_key" => Out::Key,
        "encrypt_hybrid_header" if f.starts_with("webassembly_") => Out::Header(0),
        "encrypt_hybrid_header_using_cache" => Out::Header(0),
        "encrypt_hybrid_header" => Out::Pair,
        "encrypt" => Out::Complete,
        "generate_master_keys" | "encrypt_hybrid_block" => Out::Length,
        "create_encryption_cache" | "create_decryption_cache" => Out::Length,
        _ => Out::Same,
    }
}

/// What a call returned, as a list of byte strings
pub fn outputs(v: R) -> Vec<Vec<u8>> {
    match v {
        R::B(x) => vec![x],
        R::S(x) => vec![x.into_bytes()],
        R::N(x) => vec![(x as u32).to_be_bytes().to_vec()],
        R::L(l) => l.into_iter().flat_map(outputs).collect(),
        R::Null => vec![],
    }
}

/// attributes and rows, whose order for all attributes is any
fn structure(k: &[u8]) -> Option<Vec<(u32, Vec<Vec<u8>>)>> {
    let k = r::RUk::parse(k)?;
    let rows = k.m.iter().map(|x| x.iter().map(|y| y.to_bytes().to_vec()).collect());
    let mut v: Vec<_> = k.attrs.iter().copied().zip(rows).collect();
    v.sort();
    Some(v)
}

fn header_of(h: &[u8]) -> Option<(usize, Vec<u32>)> {
    let p = r::header_parse(h)?;
    Some((h.len(), r::RCt::parse(&p.ct)?.gamma))
}

/// a length, a symmetric key, a header
pub fn split_header(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let n = u32::from_be_bytes(b.get(..4)?.try_into().ok()?) as usize;
    Some((b.get(4..4 + n)?, b.get(4 + n..)?))
}

pub fn same_policy(a: &[u8], b: &[u8]) -> bool {
    let p = |x: &[u8]| -> Option<Policy> { serde_json::from_slice(x).ok() };
    match (p(a), p(b)) {
        (Some(a), Some(b)) => policies_agree(&a, &b),
        // names which are not read back: the same text, in any order
        (None, None) => {
            let bytes = |x: &[u8]| {
                let mut l = x.to_vec();
                l.sort_unstable();
                l
            };
            serde_json::from_slice::<serde_json::Value>(a).is_ok() && bytes(a) == bytes(b)
        }
        _ => false,
    }
}

pub fn policies_agree(a: &Policy, b: &Policy) -> bool {
    let sorted = |p: &Policy| {
        let mut v: Vec<(String, Vec<u32>)> = p
            .attribute_to_int
            .iter()
            .map(|(k, v)| (format!("{}\u{1}{}", k.axis, k.name), v.clone().into_sorted_vec()))
            .collect();
        v.sort();
        v
    };
    a.last_attribute_value == b.last_attribute_value
        && a.max_attribute_creations == b.max_attribute_creations
        && a.axes == b.axes
        && sorted(a) == sorted(b)
}

fn agree(o: Out, x: &[Vec<u8>], y: &[Vec<u8>]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let lens = x.iter().zip(y).all(|(a, b)| a.len() == b.len());
    // (an encapsulation for no attribute is not read back)
    match o {
        Out::Same => x == y,
        Out::Policy => same_policy(&x[0], &y[0]),
        Out::Length => lens,
        Out::Key => lens && structure(&x[0]).is_some() && structure(&x[0]) == structure(&y[0]),
        Out::Header(i) => lens && {
            let h = |b: &[u8]| split_header(b).and_then(|(_, h)| header_of(h));
            h(&x[i]) == h(&y[i])
        },
        Out::Pair => lens && header_of(&x[1]) == header_of(&y[1]) && x[1].get(..4) == y[1].get(..4),
        Out::Complete => lens && {
            let h = |b: &[u8]| split_header(b).and_then(|(h, _)| header_of(h));
            h(&x[0]) == h(&y[0])
        },
    }
}

fn show(c: &Call) -> serde_json::Value {
    json!({"function": c.f, "arguments": c.a.iter().map(|x| match x {
        A::B(x) => format!("{} bytes {}", x.len(), hex::encode(&x[..x.len().min(6000)])),
        x => format!("{x:?}"),
    }).collect::<Vec<_>>()})
}

/// Makes the call, of which the native counterpart gave `want`, and compares.
/// Returns the outputs, or None for an exception or a violation.
pub fn compare(ctx: &mut Ctx, peer: &mut Peer, c: &Call, want: N) -> Option<Vec<Vec<u8>>> {
    if want.as_ref().err().map(String::as_str) == Some(TOO_LARGE) {
        ctx.count("requests too large to be tried", 1);
        return None;
    }
    ctx.journal(c.f);
    let got = peer.call(c.f, &c.a);
    compared(ctx, c, got, want)
}

/// The same, of a call already made
pub fn compared(ctx: &mut Ctx, c: &Call, got: Result<R, Fail>, want: N) -> Option<Vec<Vec<u8>>> {
    ctx.count(&format!("calls of {}", c.f), 1);
    let got = match got {
        Ok(v) => Ok(outputs(v)),
        Err(Fail::Raised(t, m)) => Err(format!("{t}: {m}")),
        Err(f) => {
            ctx.violation(format!("{}: {f}", c.f), show(c));
            return None;
        }
    };
    if want.as_ref().err().map(String::as_str) == Some(DEEP) {
        ctx.count(if got.is_ok() { "deep texts accepted" } else { "deep texts refused" }, 1);
        return got.ok();
    }
    match (got, want) {
        (Ok(x), Ok(y)) => {
            let o = relation(c.f);
            if agree(o, &x, &y) {
                ctx.count("successes compared", 1);
                Some(x)
            } else {
                let h = |l: &[Vec<u8>]| l.iter().map(|b| hex::encode(&b[..b.len().min(3000)])).collect::<Vec<_>>();
                let mut d = show(c);
                d["got"] = json!(h(&x));
                d["native"] = json!(h(&y));
                ctx.violation(format!("{} gives another result than the native function", c.f), d);
                None
            }
        }
        (Err(m), Err(_)) => {
            ctx.count("exceptions compared", 1);
            if m.is_empty() {
                ctx.violation(format!("{}: the exception says nothing", c.f), show(c));
            }
            None
        }
        (Ok(_), Err(m)) => {
            ctx.violation(format!("{} succeeds where the native function fails: {m}", c.f), show(c));
            None
        }
        (Err(m), Ok(_)) => {
            ctx.violation(format!("{} fails where the native function succeeds: {m}", c.f), show(c));
            None
        }
    }
}

/// Every bytes and text argument of each function, shortened to a few lengths
pub fn shortened(calls: &[Call]) -> Vec<(Call, &'static str)> {
    let mut out = vec![];
    for (k, c) in calls.iter().enumerate() {
        if calls[..k].iter().any(|d| d.f == c.f) {
            continue;
        }
        for i in 0..c.a.len() {
            for n in [0usize, 1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, 17, 27, 28, 31, 33] {
                let mut d = c.clone();
                match &mut d.a[i] {
                    A::B(x) if n < x.len() => {
                        x.truncate(n);
                        out.push((d.clone(), "shortened"));
                        d.a[i] = A::B(vec![0; n]);
                        if n > 0 {
                            out.push((d, "zeros"));
                        }
                    }
                    A::S(x) if n < x.chars().count() => {
                        *x = x.chars().take(n).collect();
                        out.push((d, "shortened"));
                    }
                    _ => {}
                }
            }
        }
    }
    out
}

/// Changes one value of a JSON text, or one element of a list of attributes
fn respell(rng: &mut Rng, text: &str) -> Option<String> {
    use serde_json::Value;
    if !text.starts_with(['[', '{']) {
        // Axis::name, Axis::name
        let mut l: Vec<&str> = text.split(',').collect();
        if !text.contains("::") || text.contains(['&', '|', '(']) {
            return None;
        }
        let j = rng.below(l.len());
        match rng.below(3) {
            0 => l.push(l[j]),
            1 => {
                l.remove(j);
            }
            _ => {
                let k = rng.below(l.len());
                l.swap(j, k);
            }
        }
        return Some(l.join(","));
    }
    let mut v: Value = serde_json::from_str(text).ok()?;
    let mut paths = vec![];
    fn walk(v: &Value, at: String, out: &mut Vec<String>) {
        out.push(at.clone());
        match v {
            Value::Array(l) => l.iter().enumerate().for_each(|(i, x)| walk(x, format!("{at}/{i}"), out)),
            Value::Object(m) => m.iter().for_each(|(k, x)| walk(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
            _ => {}
        }
    }
    walk(&v, String::new(), &mut paths);
    let lists: Vec<&String> = paths.iter().filter(|p| v.pointer(p).is_some_and(|x| x.is_array() || x.is_object())).collect();
    let texts: Vec<Value> = paths.iter().filter_map(|p| v.pointer(p)).filter(|x| x.is_string()).cloned().collect();
    // lists are few among the values, and what is most badly handled
    let p = if rng.chance(1, 2) { (*rng.pick(&lists)).clone() } else { rng.pick(&paths).clone() };
    let way = rng.below(6);
    match v.pointer_mut(&p)? {
        Value::Array(l) if !l.is_empty() => {
            let j = rng.below(l.len());
            let k = rng.below(l.len());
            match way {
                0 => {
                    l.remove(j);
                }
                1 => l.swap(j, k),
                2 => l[j] = l[k].clone(),
                3 => l.clear(),
                _ => {
                    let x = l[j].clone();
                    l.insert(k, x);
                }
            }
        }
        Value::Object(m) if !m.is_empty() => {
            let keys: Vec<String> = m.keys().cloned().collect();
            let (j, k) = (rng.pick(&keys).clone(), rng.pick(&keys).clone());
            match way {
                0 => {
                    m.remove(&j);
                }
                1 => {
                    m.insert("other".into(), Value::Null);
                }
                2 => {
                    let x = m.remove(&j)?;
                    m.insert(format!("{j}x"), x);
                }
                _ => {
                    let (x, y) = (m[&j].clone(), m[&k].clone());
                    m.insert(j, y);
                    m.insert(k, x);
                }
            }
        }
        Value::String(t) => {
            *t = match way {
                0 => String::new(),
                1 => format!("{t} "),
                2 => t.to_uppercase(),
                3 => format!("{t}::x"),
                _ => rng.pick(&texts).as_str()?.to_string(),
            }
        }
        Value::Bool(b) => *b = !*b,
        // a policy stays small
        x => {
            *x = match way {
                0 => json!(0),
                1 => json!(-1),
                2 => json!(1.5),
                3 => json!(x.as_u64()? + 1),
                4 => json!(x.as_u64()?.saturating_sub(1)),
                _ => Value::Null,
            }
        }
    }
    serde_json::to_string(&v).ok()
}

/// Makes one argument of a call bad, or at least other
pub fn spoil(rng: &mut Rng, c: &mut Call, pool: &[Call], odd: &[serde_json::Value]) -> &'static str {
    if c.a.is_empty() {
        return "nothing";
    }
    let i = rng.below(c.a.len());
    if !odd.is_empty() && rng.chance(1, 25) {
        c.a[i] = A::Odd(rng.pick(odd).clone());
        return "another type";
    }
    if rng.chance(1, 3) {
        // what the text says, rather than its letters
        let done = match &mut c.a[i] {
            A::B(x) => std::str::from_utf8(x).ok().and_then(|t| respell(rng, t)).map(|t| *x = t.into_bytes()),
            A::S(x) => respell(rng, x).map(|t| *x = t),
            _ => None,
        };
        if done.is_some() {
            return "another content";
        }
    }
    match &mut c.a[i] {
        A::B(x) => match rng.below(12) {
            0 => {
                x.clear();
                "empty"
            }
            1 | 2 => {
                let n = rng.below(x.len() + 1);
                x.truncate(n);
                "truncated"
            }
            3 => {
                // the ends of the parts are what is badly handled
                let n = *rng.pick(&[0usize, 1, 3, 4, 5, 8, 11, 12, 16, 28, 32, 36, 52]);
                let n = if rng.chance(1, 2) { n } else { x.len().saturating_sub(n) };
                x.truncate(n);
                "truncated near an end"
            }
            4 => {
                let n = rng.range(1, 20);
                x.extend(rng.bytes(n));
                "extended"
            }
            5 | 6 if !x.is_empty() => {
                let j = rng.below(x.len());
                x[j] ^= 1 << rng.below(8);
                "a bit flipped"
            }
            7 if !x.is_empty() => {
                let j = rng.below(x.len().min(12));
                x[j] = *rng.pick(&[0, 1, 0x7F, 0x80, 0xFF]);
                "a first byte changed"
            }
            8 => {
                let n = rng.below(100);
                *x = rng.bytes(n);
                "random bytes"
            }
            9 if x.first().is_some_and(|c| b"[{".contains(c)) && x.len() > 2 => {
                let j = rng.below(x.len());
                let k = (j + rng.range(1, 5)).min(x.len());
                x.drain(j..k);
                "text shortened"
            }
            _ => {
                let o = rng.pick(pool);
                if let Some(A::B(y)) = o.a.get(rng.below(o.a.len().max(1))) {
                    *x = y.clone();
                }
                "of another object"
            }
        },
        A::S(x) => match rng.below(9) {
            0 => {
                x.clear();
                "empty text"
            }
            1 | 2 => {
                let n = rng.below(x.chars().count() + 1);
                *x = x.chars().take(n).collect();
                "text truncated"
            }
            3 => {
                x.insert_str(0, "Ghost::Axis && ");
                "unknown attribute"
            }
            4 => {
                *x = x.replace("&&", "||");
                "other operators"
            }
            5 => {
                *x = format!("{x} || {x}");
                "attribute repeated"
            }
            6 => {
                *x = (*rng.pick(&["All", "*", "::", "(", ")", "a", "a::", "::a", "&&", "a::b &&", "a::b && (", "((((", ",", "a::b,,a::b", "\u{0}", "é::ß", "a::b::c", "(é::ß", "(é::ß) && (ü::x)", "é::ß\u{a0}||\u{2003}a::b", "%e9%::x", "(a::é)) && b::c", "機::密 || (a::b)"])).to_string();
                "odd text"
            }
            7 => {
                let n = *rng.pick(&[1600, 4000, 12_000, 30_000, 100_000]);
                match rng.below(3) {
                    0 => *x = format!("{}{x}{}", "(".repeat(n), ")".repeat(n)),
                    1 => *x = vec!["Ghost::x"; n].join(if rng.chance(1, 2) { "&&" } else { " || " }),
                    _ => *x = format!("{}é::x{}", "(a::b||".repeat(n), ")".repeat(n)),
                }
                "deep text"
            }
            _ => {
                let n = rng.below(20);
                *x = String::from_utf8_lossy(&rng.bytes(n)).into_owned();
                "random text"
            }
        },
        A::N(x) => {
            *x = match rng.below(6) {
                0 => 0,
                1 => -1,
                2 => *x + 1,
                3 => i128::from(u32::MAX),
                4 => i128::from(rng.u64() as u32 >> 1),
                _ => i128::from(i32::MAX),
            };
            "another number"
        }
        A::Null => {
            c.a[i] = A::B(rng.bytes(3));
            "present"
        }
        A::Odd(_) => "odd",
    }
}
