//! Executable model of policies and access policies: the oracle for "who may decrypt what".
//! It keeps its own attribute counters and its own boolean evaluation.
use crate::rng::Rng;
use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Axis {
    pub name: String,
    pub attrs: Vec<String>,
    pub hier: bool,
    /// values successively given to each attribute, oldest first
    pub values: Vec<Vec<u32>>,
}

/// (axis, attribute)
pub type At = (usize, usize);

#[derive(Clone, Debug)]
pub struct Model {
    pub axes: Vec<Axis>,
    pub last: u32,
    pub max: u32,
}

#[derive(Clone)]
pub struct World {
    pub m: Model,
    pub policy: Policy,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum F {
    Attr(At),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
}

/// What a key opens: a formula over attribute values, fixed when it is made.
#[derive(Clone, Debug)]
pub enum V {
    Any(BTreeSet<u32>),
    And(Box<V>, Box<V>),
    Or(Box<V>, Box<V>),
}

impl V {
    pub fn eval(&self, vals: &BTreeSet<u32>) -> bool {
        match self {
            V::Any(s) => s.intersection(vals).next().is_some(),
            V::And(a, b) => a.eval(vals) && b.eval(vals),
            V::Or(a, b) => a.eval(vals) || b.eval(vals),
        }
    }
    pub fn leaves(&self, out: &mut Vec<u32>) {
        match self {
            V::Any(s) => out.extend(s),
            V::And(a, b) | V::Or(a, b) => {
                a.leaves(out);
                b.leaves(out);
            }
        }
    }
}

impl F {
    pub fn and(a: F, b: F) -> F {
        F::And(Box::new(a), Box::new(b))
    }
    pub fn or(a: F, b: F) -> F {
        F::Or(Box::new(a), Box::new(b))
    }
    pub fn leaves(&self, out: &mut Vec<At>) {
        match self {
            F::Attr(a) => out.push(*a),
            F::And(a, b) | F::Or(a, b) => {
                a.leaves(out);
                b.leaves(out);
            }
        }
    }
    pub fn size(&self) -> usize {
        let mut v = vec![];
        self.leaves(&mut v);
        v.len()
    }
    pub fn depth(&self) -> usize {
        match self {
            F::Attr(_) => 1,
            F::And(a, b) | F::Or(a, b) => 1 + a.depth().max(b.depth()),
        }
    }
    pub fn shape(&self) -> String {
        match self {
            F::Attr((x, y)) => format!("{x}.{y}"),
            F::And(a, b) => format!("({}&{})", a.shape(), b.shape()),
            F::Or(a, b) => format!("({}|{})", a.shape(), b.shape()),
        }
    }
}

impl Model {
    pub fn attr(&self, a: At) -> Attribute {
        Attribute::new(&self.axes[a.0].name, &self.axes[a.0].attrs[a.1])
    }
    pub fn attrs_of(&self, l: &[At]) -> Vec<Attribute> {
        l.iter().map(|a| self.attr(*a)).collect()
    }
    pub fn current(&self, a: At) -> u32 {
        *self.axes[a.0].values[a.1].last().expect("model: attribute without value")
    }
    pub fn currents(&self, l: &[At]) -> BTreeSet<u32> {
        l.iter().map(|a| self.current(*a)).collect()
    }
    pub fn all(&self) -> Vec<At> {
        let mut v = vec![];
        for (i, a) in self.axes.iter().enumerate() {
            for j in 0..a.attrs.len() {
                v.push((i, j));
            }
        }
        v
    }
    /// attributes accepted in the place of `a`: itself and, in a hierarchical
    /// axis, all the lower ones
    pub fn covers(&self, a: At) -> Vec<At> {
        if self.axes[a.0].hier {
            (0..=a.1).map(|j| (a.0, j)).collect()
        } else {
            vec![a]
        }
    }
    pub fn cover_values(&self, a: At) -> BTreeSet<u32> {
        self.covers(a)
            .iter()
            .flat_map(|(i, j)| self.axes[*i].values[*j].iter().copied())
            .collect()
    }
    pub fn snapshot(&self, f: &F) -> V {
        match f {
            F::Attr(a) => V::Any(self.cover_values(*a)),
            F::And(a, b) => V::And(Box::new(self.snapshot(a)), Box::new(self.snapshot(b))),
            F::Or(a, b) => V::Or(Box::new(self.snapshot(a)), Box::new(self.snapshot(b))),
        }
    }
    pub fn snapshot_all(&self) -> V {
        V::Any(self.axes.iter().flat_map(|a| a.values.iter().flatten().copied()).collect())
    }
    pub fn access(&self, f: &F) -> AccessPolicy {
        match f {
            F::Attr(a) => AccessPolicy::Attr(self.attr(*a)),
            F::And(a, b) => AccessPolicy::And(Box::new(self.access(a)), Box::new(self.access(b))),
            F::Or(a, b) => AccessPolicy::Or(Box::new(self.access(a)), Box::new(self.access(b))),
        }
    }
    /// every leaf stands for values no other leaf stands for
    pub fn well_formed(&self, f: &F) -> bool {
        let mut l = vec![];
        self.snapshot(f).leaves(&mut l);
        let n = l.len();
        l.into_iter().collect::<BTreeSet<_>>().len() == n
    }
    /// boolean expression as accepted by `AccessPolicy::from_boolean_expression`
    pub fn expression(&self, f: &F) -> String {
        match f {
            F::Attr(a) => format!("{}::{}", self.axes[a.0].name, self.axes[a.0].attrs[a.1]),
            F::And(a, b) => format!("({}) && ({})", self.expression(a), self.expression(b)),
            F::Or(a, b) => format!("({}) || ({})", self.expression(a), self.expression(b)),
        }
    }
}

impl World {
    pub fn new(max: u32) -> Self {
        World { m: Model { axes: vec![], last: 0, max }, policy: Policy::new(max) }
    }
    pub fn add_axis(&mut self, name: &str, attrs: &[String], hier: bool) {
        assert!(self.m.last as usize + attrs.len() <= self.m.max as usize);
        let refs = attrs.iter().map(String::as_str).collect::<Vec<_>>();
        self.policy
            .add_axis(&PolicyAxis::new(name, &refs, hier))
            .expect("model: add_axis");
        let mut values = vec![];
        for _ in attrs {
            self.m.last += 1;
            values.push(vec![self.m.last]);
        }
        self.m.axes.push(Axis { name: name.into(), attrs: attrs.to_vec(), hier, values });
    }
    pub fn rotate(&mut self, a: At) {
        assert!(self.m.last < self.m.max);
        self.policy.rotate(&self.m.attr(a)).expect("model: rotate");
        self.m.last += 1;
        let v = self.m.last;
        self.m.axes[a.0].values[a.1].push(v);
    }
    pub fn room(&self) -> u32 {
        self.m.max - self.m.last
    }
    /// the policy used agrees with the model (the policy crate is a dependency,
    /// not the code under test)
    pub fn check(&self) {
        for a in self.m.all() {
            let mut v = self.m.axes[a.0].values[a.1].clone();
            v.reverse();
            assert_eq!(self.policy.attribute_values(&self.m.attr(a)).expect("model: values"), v);
        }
    }
}

const NAMES: [&str; 16] = [
    "A", "a", "hr", "B", "C", "R&D", "level 1", "level 10", "HR", "été", "機密", "x", "A A", "z'\u{1F511}", "ÉTÉ", "LEVEL 1",
];

/// Names that may be written in expressions; some are anagrams, beginnings or
/// other cases of others
const PLAIN: [&str; 20] = [
    "A", "a", "hr", "HR", "v12", "v21", "v1", "R-D", "12", "21", "xy", "yx", "été", "ÉTÉ", "機密", "x", "level_1", "level_10", "LEVEL_1", "D-R",
];

pub struct Profile {
    pub axes: (usize, usize),
    pub attrs: (usize, usize),
    pub spare: (usize, usize),
    pub rotations: (usize, usize),
    /// names free of the characters used by boolean expressions
    pub plain: bool,
}

pub const SMALL: Profile =
    Profile { axes: (1, 3), attrs: (1, 4), spare: (0, 3), rotations: (0, 2), plain: false };
pub const MEDIUM: Profile =
    Profile { axes: (2, 5), attrs: (1, 6), spare: (0, 5), rotations: (0, 5), plain: false };
pub const LARGE: Profile =
    Profile { axes: (4, 8), attrs: (4, 12), spare: (0, 4), rotations: (0, 10), plain: false };

pub fn gen_world(rng: &mut Rng, p: &Profile) -> World {
    let nax = rng.range(p.axes.0, p.axes.1);
    let sizes: Vec<usize> = (0..nax).map(|_| rng.range(p.attrs.0, p.attrs.1)).collect();
    let rot = rng.range(p.rotations.0, p.rotations.1);
    // one policy in two is filled up to its capacity
    let spare = if rng.chance(1, 2) { 0 } else { rng.range(p.spare.0, p.spare.1) };
    let total: usize = sizes.iter().sum::<usize>() + rot + spare;
    let mut w = World::new(total as u32);
    let (odd, around) = (rng.chance(1, 2), rng.below(PLAIN.len()));
    for (i, n) in sizes.iter().enumerate() {
        let hier = rng.chance(1, 2);
        // attribute names are shared by the axes, and order is not lexicographic
        let first = rng.below(if p.plain { PLAIN.len() } else { NAMES.len() });
        let mut names: Vec<String> = (0..*n)
            .map(|j| {
                if p.plain {
                    if odd && j < PLAIN.len() {
                        PLAIN[(first + j) % PLAIN.len()].to_string()
                    } else {
                        format!("a{j}")
                    }
                } else if j < NAMES.len() {
                    NAMES[(first + j) % NAMES.len()].to_string()
                } else {
                    format!("n{j}")
                }
            })
            .collect();
        rng.shuffle(&mut names);
        let name = if p.plain {
            if odd { PLAIN[(around + i) % PLAIN.len()].to_string() } else { format!("axis{i}") }
        } else {
            // axes may be named as attributes are
            format!("{}{}", NAMES[i % NAMES.len()], if rng.chance(1, 3) { " x" } else { "" })
        };
        w.add_axis(&name, &names, hier);
    }
    for _ in 0..rot {
        let all = w.m.all();
        let a = *rng.pick(&all);
        w.rotate(a);
    }
    w
}

/// A random set of attributes a formula can use together
pub fn gen_leaves(rng: &mut Rng, m: &Model, max: usize) -> Vec<At> {
    let mut out = vec![];
    for (i, a) in m.axes.iter().enumerate() {
        if a.hier {
            // any two attributes of a hierarchical axis overlap
            out.push((i, rng.below(a.attrs.len())));
        } else {
            for j in 0..a.attrs.len() {
                out.push((i, j));
            }
        }
    }
    rng.shuffle(&mut out);
    let n = rng.range(1, out.len().min(max));
    out.truncate(n);
    out
}

/// Random tree over the leaves; bias: 0 only Or, 10 only And
pub fn gen_tree(rng: &mut Rng, leaves: &[At], bias: usize, skew: usize) -> F {
    if leaves.len() == 1 {
        return F::Attr(leaves[0]);
    }
    let k = match skew {
        0 => rng.range(1, leaves.len() - 1),
        1 => 1,
        2 => leaves.len() - 1,
        _ => leaves.len() / 2,
    };
    let (l, r) = leaves.split_at(k);
    let and = rng.chance(bias, 10);
    let a = gen_tree(rng, l, bias, skew);
    let b = gen_tree(rng, r, bias, skew);
    if and {
        F::and(a, b)
    } else {
        F::or(a, b)
    }
}

pub fn gen_formula(rng: &mut Rng, m: &Model, max: usize) -> F {
    let leaves = gen_leaves(rng, m, max);
    let bias = *rng.pick(&[0, 2, 5, 5, 5, 8, 10]);
    let skew = *rng.pick(&[0, 0, 0, 1, 2, 3]);
    gen_tree(rng, &leaves, bias, skew)
}

/// Minimal choice of leaves satisfying the formula
fn sat_leaves(rng: &mut Rng, f: &F, out: &mut Vec<At>) {
    match f {
        F::Attr(a) => out.push(*a),
        F::And(a, b) => {
            sat_leaves(rng, a, out);
            sat_leaves(rng, b, out);
        }
        F::Or(a, b) => {
            let c = if rng.chance(1, 2) { a } else { b };
            sat_leaves(rng, c, out);
        }
    }
}

/// Minimal choice of leaves whose absence makes the formula false
fn cut_leaves(rng: &mut Rng, f: &F, out: &mut Vec<At>) {
    match f {
        F::Attr(a) => out.push(*a),
        F::Or(a, b) => {
            cut_leaves(rng, a, out);
            cut_leaves(rng, b, out);
        }
        F::And(a, b) => {
            let c = if rng.chance(1, 2) { a } else { b };
            cut_leaves(rng, c, out);
        }
    }
}

/// A list of attributes satisfying the formula: minimal, or with others added
pub fn gen_sat(rng: &mut Rng, m: &Model, f: &F) -> Vec<At> {
    let mut l = vec![];
    sat_leaves(rng, f, &mut l);
    let mut out: Vec<At> = l
        .into_iter()
        .map(|a| {
            let c = m.covers(a);
            *rng.pick(&c)
        })
        .collect();
    match rng.below(5) {
        0 | 1 => {}
        2 => {
            let all = m.all();
            for _ in 0..rng.range(1, 4) {
                out.push(*rng.pick(&all));
            }
        }
        3 => {
            // repeated attributes
            for _ in 0..rng.range(1, 3) {
                out.push(*rng.pick(&out.clone()));
            }
        }
        _ => out.extend(m.all()),
    }
    rng.shuffle(&mut out);
    out
}

/// A list of attributes which does not satisfy the formula: maximal (all the
/// attributes but those of a cut), or part of it
pub fn gen_unsat(rng: &mut Rng, m: &Model, f: &F) -> Vec<At> {
    let mut cut = vec![];
    cut_leaves(rng, f, &mut cut);
    let banned: BTreeSet<At> = cut.iter().flat_map(|a| m.covers(*a)).collect();
    let mut out: Vec<At> = m.all().into_iter().filter(|a| !banned.contains(a)).collect();
    rng.shuffle(&mut out);
    if !out.is_empty() && rng.chance(1, 3) {
        let n = rng.range(0, out.len());
        out.truncate(n);
    }
    if !out.is_empty() && rng.chance(1, 6) {
        out.push(*rng.pick(&out.clone()));
    }
    out
}

/// Reads the text of an access policy whatever its characters: the parser of
/// the policy crate is given ASCII only
pub fn read_text(text: &str) -> Result<AccessPolicy, String> {
    let mut t = text.to_string();
    for sep in ["(", ")", "||", "&&", "::"] {
        let parts: Vec<&str> = t.split(sep).map(str::trim).collect();
        t = parts.join(sep);
    }
    let mut ascii = String::new();
    for c in t.chars() {
        if c.is_ascii() && c != '\u{1}' && c != '\u{2}' {
            ascii.push(c);
        } else {
            ascii.push_str(&format!("\u{1}{:x}\u{2}", c as u32));
        }
    }
    fn plain(s: &str) -> String {
        let mut out = String::new();
        let mut rest = s;
        while let Some((before, after)) = rest.split_once('\u{1}') {
            out.push_str(before);
            let (code, next) = after.split_once('\u{2}').expect("escaped");
            out.push(char::from_u32(u32::from_str_radix(code, 16).expect("code")).expect("char"));
            rest = next;
        }
        out + rest
    }
    fn back(p: AccessPolicy) -> AccessPolicy {
        match p {
            AccessPolicy::Attr(a) => AccessPolicy::new(&plain(&a.axis), &plain(&a.name)),
            AccessPolicy::And(a, b) => AccessPolicy::And(Box::new(back(*a)), Box::new(back(*b))),
            AccessPolicy::Or(a, b) => AccessPolicy::Or(Box::new(back(*a)), Box::new(back(*b))),
            AccessPolicy::All => AccessPolicy::All,
        }
    }
    AccessPolicy::from_boolean_expression(&ascii).map(back).map_err(|e| e.to_string())
}

/// Parentheses and operators of a text
pub fn nesting(text: &str) -> usize {
    ["(", "||", "&&"].iter().map(|s| text.matches(s).count()).sum()
}
