use crate::ctx::Ctx;
use crate::lib_api::*;
use crate::model::*;
use crate::rng::Rng;
use cosmian_abe_gpsw::core::Engine;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod interfaces;
pub mod places;
pub mod remote;
#[cfg(feature = "clear")]
pub mod transparent;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    pub workers: usize,
    pub rule: &'static str,
    /// least numbers of observations under which a run is no verdict
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

pub const ASAN_EXIT: i32 = 86;

const MODEL: &str = "the executable model of policies (harness/src/model.rs) says who may decrypt what";
const REF: &str = "the reference implementation (harness/src/reference.rs) follows the specification; the curve, hash and cipher crates are trusted";

pub const TABLE: &[Prop] = &[c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c14::PROP, c15::PROP, c16::PROP, c17::PROP, c18::PROP, c19::PROP, c20::PROP, c21::PROP, c22::PROP, c23::PROP, c24::PROP, c25::PROP];

pub fn find(id: &str) -> Option<&'static Prop> {
    TABLE.iter().find(|p| p.id == id)
}

/// Other commands of the program
pub fn extra(cmd: &str, args: &[String]) -> Option<i32> {
    match cmd {
        "golden" => Some(c09::golden(args.first()?)),
        "fresh" => Some(c12::child(args)),
        _ => None,
    }
}

/// A policy and its master keys
pub struct Auth<S: Scheme = Sch> {
    pub w: World,
    pub eng: Engine<S>,
    pub msk: S::MasterPrivateKey,
    pub mpk: S::MasterPublicKey,
    pub mdk: S::MasterPublicDelegationKey,
}

impl Auth {
    pub fn new(w: World) -> Result<Self, String> {
        Self::make(w)
    }
    pub fn mpk_ref(&self) -> Option<crate::reference::RMpk> {
        crate::reference::RMpk::parse(&enc(&self.mpk))
    }
}

impl<S: Scheme> Auth<S> {
    pub fn make(w: World) -> Result<Self, String> {
        w.check();
        let eng = Engine::<S>::new();
        let (msk, mpk, mdk) =
            eng.generate_master_key(&w.policy).map_err(|e| format!("master keys: {e}"))?;
        Ok(Auth { w, eng, msk, mpk, mdk })
    }
    pub fn key(&self, f: &F) -> Result<S::UserDecryptionKey, String> {
        self.eng
            .generate_user_key(&self.w.policy, &self.msk, &self.w.m.access(f))
            .map_err(|e| format!("user key for {}: {e}", f.shape()))
    }
    pub fn encrypt(&self, l: &[At], m: &S::PlainText) -> Result<S::CipherText, String> {
        self.eng
            .encrypt(&self.w.policy, &self.mpk, &self.w.m.attrs_of(l), m)
            .map_err(|e| format!("encryption for {l:?}: {e}"))
    }
    pub fn message(&self) -> Result<S::PlainText, String> {
        self.eng.random_message().map_err(|e| format!("random message: {e}"))
    }
}

pub fn describe(w: &World) -> String {
    w.m.axes
        .iter()
        .map(|a| format!("{}{}{:?}", a.attrs.len(), if a.hier { "h" } else { "f" }, a.values))
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn roundtrip<T: cosmian_abe_gpsw::core::gpsw::AsBytes>(t: &T) -> Result<T, String> {
    let b = t.try_into_bytes().map_err(|e| format!("serialization: {e}"))?;
    T::try_from_bytes(&b).map_err(|e| format!("deserialization: {e}"))
}

pub fn profile(rng: &mut Rng) -> &'static Profile {
    match rng.below(10) {
        0..=4 => &SMALL,
        5..=8 => &MEDIUM,
        _ => &LARGE,
    }
}

/// Authority over a policy of many attributes, whose values reach `max`: the
/// values used differ by 2^8 and 2^16, and only they have a component of their
/// own in the master keys, built from their bytes. Delegation is left out.
pub fn wide_values<S: Scheme>(rng: &mut Rng, max: u32) -> Auth<S> {
    let k = rng.range(1, 200) as u32;
    let mut pool = vec![k, k + 1, 255, 256, 257, k + 256, k + 512, 65535, 65536, 65537, k + 65536, k + 65537, k + 65792, max, max - 1];
    pool.retain(|x| *x <= max);
    pool.sort_unstable();
    pool.dedup();
    let mut values = pool.clone();
    rng.shuffle(&mut values);
    let mut w = World::new(max);
    // the flat axis has most of the values, the hierarchical one the others
    let cut = values.len() - values.len() / 4;
    for (name, vals, hier) in [("flat", &values[..cut], false), ("levels", &values[cut..], true)] {
        let attrs = (0..vals.len()).map(|i| format!("{name}{i}")).collect::<Vec<_>>();
        w.policy.axes.insert(name.into(), (attrs.clone(), hier));
        for (a, v) in attrs.iter().zip(vals) {
            w.policy
                .attribute_to_int
                .insert(abe_policy::Attribute::new(name, a), std::collections::BinaryHeap::from(vec![*v]));
        }
        w.m.axes.push(Axis { name: name.into(), attrs, hier, values: vals.iter().map(|v| vec![*v]).collect() });
    }
    w.policy.last_attribute_value = max;
    w.m.last = max;
    w.check();
    S::wide(rng, w, &pool)
}

pub fn wide_authority(rng: &mut Rng, w: World, pool: &[u32]) -> Auth {
    use crate::reference as rf;
    let n = w.m.max as usize + 1;
    let mut r = rf::RMsk { t: vec![rf::int(1); n], y: rf::scalar(rng) };
    let g1 = cosmian_bls12_381::G1Affine::generator();
    let mut p = rf::RMpk { t: vec![g1; n], y: rf::gt_gen() * r.y };
    for v in pool {
        r.t[*v as usize] = rf::scalar(rng);
        p.t[*v as usize] = (g1 * r.t[*v as usize]).into();
    }
    let eng = Eng::new();
    let small = World::new(0);
    let (_, _, mdk) = eng.generate_master_key(&small.policy).expect("model: no delegation key");
    Auth {
        w,
        eng,
        msk: dec(&r.bytes()).expect("model: master key of many values"),
        mpk: dec(&p.bytes()).expect("model: public key of many values"),
        mdk,
    }
}

/// One flat axis of n attributes
pub fn flat(n: usize) -> World {
    let mut w = World::new(n as u32);
    w.add_axis("flat", &(0..n).map(|i| format!("v{i}")).collect::<Vec<_>>(), false);
    w
}

/// A policy of 60 to 80 attributes; formulas of about 50 of them, keys over 65535 bytes
pub fn large_world(rng: &mut Rng, spare: u32) -> World {
    let n = rng.range(60, 80);
    let mut w = World::new(n as u32 + spare);
    w.add_axis("flat", &(0..n).map(|i| format!("v{i}")).collect::<Vec<_>>(), false);
    w
}
pub fn large_formula(rng: &mut Rng, m: &Model) -> F {
    let mut l = m.all();
    rng.shuffle(&mut l);
    l.truncate(rng.range(50, 58));
    let bias = *rng.pick(&[9, 10, 10]);
    gen_tree(rng, &l, bias, 3)
}
