use super::*;
use crate::reference as r;
use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar as LScalar;
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_abe_gpsw::core::msp::{policy_to_msp, MonotoneSpanProgram, Node};
use cosmian_bls12_381::Scalar;
use serde_json::json;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    workers: 8,
    rule: "all texts of up to 7 (thorough 8) characters over {1,2,&,|,(,)} and random longer ones against a parser of our own; random trees, textual formulas and access policies: the rows of their program accept a subset of the leaves exactly when the formula is true, for all subsets up to 12 leaves and sampled ones beyond; random, sparse, singular and structured matrices against an elimination of our own; distinct = text, (tree, subset) or matrix",
    floors: &[
        ("well-formed texts", 1000),
        ("malformed texts refused", 10000),
        ("subsets accepted", 20000),
        ("subsets refused", 20000),
        ("systems solved", 1000),
        ("systems without solution", 300),
        ("singular systems solved", 200),
        ("programs from access policies", 100),
        ("formulas naming a leaf twice refused", 80),
    ],
    assumptions: &[MODEL, REF],
};

/// Boolean formula over numbers
#[derive(Clone, Debug, PartialEq)]
enum E {
    L(u32),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
}

impl E {
    fn display(&self) -> String {
        match self {
            E::L(x) => format!("LEAF({x})"),
            E::And(a, b) => format!("AND( {}, {} )", a.display(), b.display()),
            E::Or(a, b) => format!("OR( {}, {} )", a.display(), b.display()),
        }
    }
    fn node(&self) -> Node {
        match self {
            E::L(x) => Node::Leaf(*x),
            E::And(a, b) => a.node() & b.node(),
            E::Or(a, b) => a.node() | b.node(),
        }
    }
    fn eval(&self, s: &BTreeSet<u32>) -> bool {
        match self {
            E::L(x) => s.contains(x),
            E::And(a, b) => a.eval(s) && b.eval(s),
            E::Or(a, b) => a.eval(s) || b.eval(s),
        }
    }
    fn leaves(&self, o: &mut Vec<u32>) {
        match self {
            E::L(x) => o.push(*x),
            E::And(a, b) | E::Or(a, b) => {
                a.leaves(o);
                b.leaves(o);
            }
        }
    }
    /// a text for the formula; `rng` decides of needless parentheses and spaces
    fn text(&self, rng: &mut Rng) -> String {
        fn sp(rng: &mut Rng) -> &'static str {
            if rng.chance(1, 3) { " " } else { "" }
        }
        match self {
            E::L(x) => {
                let z = if rng.chance(1, 10) { "00" } else { "" };
                let t = format!("{z}{x}");
                if rng.chance(1, 10) { format!("({}{t}{})", sp(rng), sp(rng)) } else { t }
            }
            E::And(a, b) | E::Or(a, b) => {
                let op = if matches!(self, E::And(..)) { '&' } else { '|' };
                let l = match **a {
                    E::L(_) => a.text(rng),
                    _ => format!("({})", a.text(rng)),
                };
                let r = match **b {
                    E::L(_) => b.text(rng),
                    // what follows the operator needs none
                    _ if rng.chance(1, 2) => b.text(rng),
                    _ => format!("({})", b.text(rng)),
                };
                format!("{l}{}{op}{}{r}", sp(rng), sp(rng))
            }
        }
    }
}

/// E := T | T op E; T := number | '(' E ')'
fn oracle(s: &str) -> Option<E> {
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() || c.iter().any(|x| !" ()&|0123456789".contains(*x)) {
        return None;
    }
    let c: Vec<char> = c.into_iter().filter(|x| *x != ' ').collect();
    fn t(c: &[char], p: &mut usize) -> Option<E> {
        if c.get(*p)? == &'(' {
            *p += 1;
            let x = e(c, p)?;
            if c.get(*p)? != &')' {
                return None;
            }
            *p += 1;
            return Some(x);
        }
        let mut n: u64 = 0;
        let start = *p;
        while let Some(d) = c.get(*p).and_then(|x| x.to_digit(10)) {
            n = (n * 10 + u64::from(d)).min(1 << 40);
            *p += 1;
        }
        if *p == start {
            return None;
        }
        Some(E::L(u32::try_from(n).ok()?))
    }
    fn e(c: &[char], p: &mut usize) -> Option<E> {
        let a = t(c, p)?;
        match c.get(*p) {
            Some('&') => {
                *p += 1;
                Some(E::And(Box::new(a), Box::new(e(c, p)?)))
            }
            Some('|') => {
                *p += 1;
                Some(E::Or(Box::new(a), Box::new(e(c, p)?)))
            }
            _ => Some(a),
        }
    }
    let mut p = 0;
    let x = e(&c, &mut p)?;
    (p == c.len()).then_some(x)
}

fn check_text(ctx: &mut Ctx, s: &str) {
    let want = oracle(s);
    let got = match ctx.guard("Node::parse", || Node::parse(s)) {
        Some(g) => g,
        None => {
            ctx.sample(|| s.to_string());
            return;
        }
    };
    match (&want, &got) {
        (None, Err(_)) => ctx.count("malformed texts refused", 1),
        (None, Ok(n)) => ctx.violation("a malformed formula is accepted", json!({"text": s, "parsed": n.to_string()})),
        (Some(_), Err(e)) => ctx.violation(format!("a well-formed formula is refused: {e}"), json!({"text": s})),
        (Some(w), Ok(n)) => {
            ctx.count("well-formed texts", 1);
            if w.display() != n.to_string() {
                ctx.violation(
                    "a formula is parsed as another",
                    json!({"text": s, "parsed": n.to_string(), "expected": w.display()}),
                );
            }
        }
    }
    ctx.eval(Some(s));
}

fn lib_scalar(s: &Scalar) -> LScalar {
    LScalar::try_from_bytes(&s.to_bytes()).expect("scalar")
}

/// the solution of the library for rows, checked against ours
fn coefs(ctx: &mut Ctx, rows: &[Vec<Scalar>]) -> Option<bool> {
    let mut m: Vec<Vec<LScalar>> = rows.iter().map(|r| r.iter().map(lib_scalar).collect()).collect();
    let got = ctx.guard("span_coefs", || Sch::span_coefs(&mut m))?;
    let want = r::solve(rows);
    let detail = || {
        json!({"rows": rows.iter().map(|r| r.iter().map(|x| hex::encode(x.to_bytes())).collect::<Vec<_>>()).collect::<Vec<_>>()})
    };
    match (&got, &want) {
        (Err(e), _) => ctx.violation(format!("span_coefs failed: {e}"), detail()),
        (Ok(None), None) => return Some(false),
        (Ok(None), Some(_)) => ctx.violation("span_coefs misses a solution", detail()),
        (Ok(Some(_)), None) => ctx.violation("span_coefs gives a solution where there is none", detail()),
        (Ok(Some(x)), Some(_)) => {
            let exact = x.len() == rows.len()
                && (0..rows[0].len()).all(|c| {
                    x.iter().zip(rows).fold(Scalar::zero(), |s, (a, r)| s + **a * r[c]) == Scalar::one()
                });
            if !exact {
                ctx.violation("the coefficients do not combine the rows to (1, ..., 1)", detail());
            }
            return Some(true);
        }
    }
    None
}

/// Structure and acceptance of a program
fn program(ctx: &mut Ctx, rng: &mut Rng, msp: &MonotoneSpanProgram<i32>, leaves: &[u32], name: &str, truth: &dyn Fn(&BTreeSet<u32>) -> bool) {
    let detail = |x: String| json!({"formula": name, "program": msp.to_string(), "what": x});
    if msp.rows() != leaves.len() || msp.matrix().len() != msp.rows() || msp.matrix().iter().any(|r| r.len() != msp.cols()) {
        ctx.violation("dimensions of the program", detail(String::new()));
        return;
    }
    let mut seen = BTreeSet::new();
    for i in 0..msp.rows() {
        let a = msp.get_attr_from_row(i);
        if msp.get_row_from_attr(a) != Some(i) || !leaves.contains(&a) || !seen.insert(a) {
            ctx.violation("rows and attributes do not correspond", detail(format!("row {i} attribute {a}")));
            return;
        }
    }
    for _ in 0..3 {
        let a = rng.u64() as u32;
        if !leaves.contains(&a) && msp.get_row_from_attr(a).is_some() {
            ctx.violation("a row for an attribute not in the formula", detail(format!("{a}")));
        }
    }
    let rows: Vec<Vec<Scalar>> = msp.matrix().iter().map(|r| r.iter().map(|x| r::int((*x).into())).collect()).collect();
    let attrs: Vec<u32> = (0..msp.rows()).map(|i| msp.get_attr_from_row(i)).collect();
    let n = attrs.len();
    let mut masks: Vec<Vec<bool>> = vec![];
    if n <= 10 || (n <= 12 && ctx.thorough()) {
        for b in 0..1u32 << n {
            masks.push((0..n).map(|i| b >> i & 1 == 1).collect());
        }
    } else {
        for _ in 0..ctx.n(40, 200) {
            let p = rng.range(1, 9);
            masks.push((0..n).map(|_| rng.chance(p, 10)).collect());
        }
        // one attribute missing
        for i in 0..n.min(20) {
            masks.push((0..n).map(|j| j != i).collect());
        }
    }
    for (k, mask) in masks.iter().enumerate() {
        let set: BTreeSet<u32> = attrs.iter().zip(mask).filter(|(_, b)| **b).map(|(a, _)| *a).collect();
        let mut idx: Vec<usize> = (0..n).filter(|i| mask[*i]).collect();
        rng.shuffle(&mut idx);
        let sub: Vec<Vec<Scalar>> = idx.iter().map(|i| rows[*i].clone()).collect();
        let want = truth(&set);
        let got = if sub.is_empty() { false } else { r::solve(&sub).is_some() };
        if want != got {
            ctx.violation(
                if want { "the program refuses a set satisfying the formula" } else { "the program accepts a set not satisfying the formula" },
                detail(format!("{set:?}")),
            );
            return;
        }
        // the library must come to the same conclusion
        if !sub.is_empty() && (k % 8 == 0 || n <= 5) {
            match coefs(ctx, &sub) {
                Some(g) if g == want => {}
                Some(_) => ctx.violation("the coefficients exist for a set not satisfying the formula, or the reverse", detail(format!("{set:?}"))),
                None => return,
            }
        }
        ctx.count(if want { "subsets accepted" } else { "subsets refused" }, 1);
        ctx.eval(Some(&format!("{name} {mask:?}")));
    }
}

fn tree(rng: &mut Rng, l: &[u32], and: usize, skew: usize) -> E {
    if l.len() == 1 {
        return E::L(l[0]);
    }
    let k = match skew {
        0 => rng.range(1, l.len() - 1),
        1 => 1,
        2 => l.len() - 1,
        _ => l.len() / 2,
    };
    let (a, b) = (Box::new(tree(rng, &l[..k], and, skew)), Box::new(tree(rng, &l[k..], and, skew)));
    if rng.chance(and, 10) { E::And(a, b) } else { E::Or(a, b) }
}

fn random_tree(rng: &mut Rng, n: usize) -> E {
    let base = *rng.pick(&[0u32, 1, 5, 1000, u32::MAX - 500]);
    let mut l: Vec<u32> = (0..n as u32).map(|i| base + i * rng.range(1, 3) as u32).collect();
    l.dedup();
    let mut seen = BTreeSet::new();
    l.retain(|x| seen.insert(*x));
    rng.shuffle(&mut l);
    let (and, skew) = (*rng.pick(&[0, 2, 5, 5, 5, 8, 10]), rng.below(4));
    tree(rng, &l, and, skew)
}

const CHARS: [char; 6] = ['1', '2', '&', '|', '(', ')'];

fn run(ctx: &mut Ctx) {
    // every text, by prefix
    let len = ctx.n(7, 8) as usize;
    ctx.phase("texts", 36, 36, |ctx, _| {
        let pre: String = [CHARS[ctx.case() as usize / 6], CHARS[ctx.case() as usize % 6]].iter().collect();
        if ctx.case() == 0 {
            check_text(ctx, "");
            for c in CHARS {
                check_text(ctx, &c.to_string());
            }
        }
        let mut level = vec![pre];
        for _ in 2..=len {
            let mut next = Vec::with_capacity(level.len() * 6);
            for s in &level {
                check_text(ctx, s);
                if ctx.violated() {
                    ctx.sample(|| s.clone());
                    return;
                }
                for c in CHARS {
                    next.push(format!("{s}{c}"));
                }
            }
            level = next;
        }
    });
    ctx.phase("long texts", 600, 12000, |ctx, rng| {
        let n = *rng.pick(&[1, 2, 3, 5, 8, 20, 40]);
        let e = random_tree(rng, n);
        let t = e.text(rng);
        if oracle(&t).map(|x| x.display()) != Some(e.display()) {
            ctx.harness_errors.push(format!("oracle on {t}"));
            return;
        }
        check_text(ctx, &t);
        // one or two edits away
        for _ in 0..6 {
            let mut c: Vec<char> = t.chars().collect();
            for _ in 0..rng.range(1, 2) {
                let p = rng.below(c.len().max(1));
                let x = *rng.pick(&['(', ')', '&', '|', '1', '9', ' ', 'a', '+', 'é', '\t', '0', '*', '٣']);
                match rng.below(4) {
                    0 => c.insert(p, x),
                    1 if !c.is_empty() => {
                        c.remove(p);
                    }
                    2 if !c.is_empty() => c[p] = x,
                    _ if c.len() > 1 => {
                        let q = rng.below(c.len());
                        c.swap(p, q);
                    }
                    _ => c.push(x),
                }
            }
            let s: String = c.into_iter().collect();
            check_text(ctx, &s);
        }
        for s in ["4294967295", "4294967296", "1 & 4294967296", "99999999999999999999", "(4294967295)", "0", " ", "  ", "( )"] {
            check_text(ctx, s);
        }
    });
    ctx.phase("deep texts", 16, 64, |ctx, rng| {
        // nested parentheses, and long chains without any
        let d = rng.range(20, 150);
        let op = *rng.pick(&['&', '|']);
        check_text(ctx, &format!("{}1{}", "(".repeat(d), ")".repeat(d)));
        check_text(ctx, &format!("{}1{}", "(".repeat(d), ")".repeat(d - 1)));
        check_text(ctx, &format!("{}1{}", "(".repeat(d), ")".repeat(d + 1)));
        let chain = (0..d).map(|i| i.to_string()).collect::<Vec<_>>().join(&op.to_string());
        check_text(ctx, &chain);
        check_text(ctx, &format!("{chain}{op}"));
        let left = (1..d).fold("0".to_string(), |s, i| format!("({s}){op}{i}"));
        check_text(ctx, &left);
    });
    ctx.phase("trees", 700, 12000, |ctx, rng| {
        let n = *rng.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 12, 16, 25, 60]);
        let e = random_tree(rng, n);
        let mut l = vec![];
        e.leaves(&mut l);
        let t = e.text(rng);
        ctx.sample(|| t.clone());
        let msp = must!(ctx, e.node().to_msp(), "to_msp");
        let by_text = must!(ctx, MonotoneSpanProgram::<i32>::parse(&t), "parse of {t}");
        if msp != by_text {
            ctx.violation("the program of a text differs from that of the formula", json!({"text": t}));
        }
        program(ctx, rng, &msp, &l, &e.display(), &|s| e.eval(s));
        // as scalars
        let s = MonotoneSpanProgram::<LScalar>::from(&msp);
        for (x, y) in s.matrix().iter().flatten().zip(msp.matrix().iter().flatten()) {
            if **x != r::int((*y).into()) {
                ctx.violation("an entry of the program is converted to another scalar", json!({"entry": y}));
            }
        }
        if (0..msp.rows()).any(|i| s.get_attr_from_row(i) != msp.get_attr_from_row(i)) || s.rows() != msp.rows() || s.cols() != msp.cols() {
            ctx.violation("the conversion to scalars changes the program", json!({"text": t}));
        }
    });
    ctx.phase("repeated", 200, 4000, |ctx, rng| {
        let n = rng.range(2, 12);
        let e = random_tree(rng, n);
        let mut l = vec![];
        e.leaves(&mut l);
        // a leaf takes the value of another
        let (i, j) = (rng.below(l.len()), rng.below(l.len()));
        if i == j {
            return;
        }
        fn set(e: &E, k: &mut usize, i: usize, v: u32) -> E {
            match e {
                E::L(x) => {
                    *k += 1;
                    E::L(if *k - 1 == i { v } else { *x })
                }
                E::And(a, b) => {
                    let a = set(a, k, i, v);
                    E::And(Box::new(a), Box::new(set(b, k, i, v)))
                }
                E::Or(a, b) => {
                    let a = set(a, k, i, v);
                    E::Or(Box::new(a), Box::new(set(b, k, i, v)))
                }
            }
        }
        let e = set(&e, &mut 0, i, l[j]);
        for r in [e.node().to_msp(), MonotoneSpanProgram::<i32>::parse(&e.text(rng))] {
            match r {
                Err(_) => ctx.count("formulas naming a leaf twice refused", 1),
                Ok(m) => ctx.violation("a formula naming an attribute twice is accepted", json!({"formula": e.display(), "program": m.to_string()})),
            }
        }
        ctx.eval(Some(&e.display()));
    });
    ctx.phase("policies", 220, 4000, |ctx, rng| {
        let p = profile(rng);
        let w = gen_world(rng, p);
        let f = gen_formula(rng, &w.m, 6);
        let v = w.m.snapshot(&f);
        let mut l = vec![];
        v.leaves(&mut l);
        let msp = must!(ctx, policy_to_msp(&w.policy, &w.m.access(&f)), "policy_to_msp of {}", f.shape());
        program(ctx, rng, &msp, &l, &format!("{} {}", describe(&w), f.shape()), &|s| v.eval(s));
        let v = w.m.snapshot_all();
        let mut l = vec![];
        v.leaves(&mut l);
        let msp = must!(ctx, policy_to_msp(&w.policy, &abe_policy::AccessPolicy::All), "policy_to_msp of All");
        program(ctx, rng, &msp, &l, &format!("{} All", describe(&w)), &|s| v.eval(s));
        ctx.count("programs from access policies", 2);
    });
    ctx.phase("matrices", 2400, 40000, |ctx, rng| {
        let (n, k) = match rng.below(10) {
            // more than 255 rows or columns
            _ if ctx.case() < ctx.n(8, 200) => {
                let (a, b) = (rng.range(256, 300), rng.range(1, 12));
                match ctx.case() % 4 {
                    0 => (a, rng.range(256, 290)),
                    1 => (a, b),
                    2 => (b, a),
                    _ => (ctx.n(64, 600) as usize * rng.range(1, 2), rng.range(256, 260)),
                }
            }
            0..=5 => (rng.range(1, 6), rng.range(1, 6)),
            6..=8 => (rng.range(1, 16), rng.range(1, 16)),
            _ => (rng.range(10, 40), rng.range(10, 40)),
        };
        let kind = rng.below(7);
        let mut m: Vec<Vec<Scalar>> = (0..n)
            .map(|_| {
                (0..k)
                    .map(|_| match kind {
                        0 => r::scalar(rng),
                        1 => r::int(rng.range(0, 1) as i64),
                        2 => r::int(rng.range(0, 4) as i64 - 2),
                        3 => if rng.chance(1, 4) { r::scalar(rng) } else { Scalar::zero() },
                        4 => r::int(*rng.pick(&[0, 0, 0, 1, -1, i64::from(i32::MAX), i64::from(i32::MIN)])),
                        _ => r::int(rng.range(0, 2) as i64 - 1),
                    })
                    .collect()
            })
            .collect();
        let mut singular = false;
        // dependent rows
        if n >= 2 && rng.chance(1, 3) {
            singular = true;
            for _ in 0..rng.range(1, n / 2 + 1) {
                let (a, b, c) = (rng.below(n), rng.below(n), rng.below(n));
                let (x, y) = (r::scalar(rng), r::int(rng.range(0, 2) as i64));
                m[c] = m[a].iter().zip(&m[b]).map(|(p, q)| x * p + y * q).collect();
            }
        }
        // a column of zeros: no solution
        if rng.chance(1, 12) {
            let c = rng.below(k);
            for row in &mut m {
                row[c] = Scalar::zero();
            }
        }
        // rows made to reach the target, last or first
        if rng.chance(1, 2) {
            let p = rng.below(n);
            let mut rest = vec![Scalar::one(); k];
            for (i, row) in m.iter().enumerate() {
                if i != p && rng.chance(2, 3) {
                    let x = if rng.chance(1, 2) { r::scalar(rng) } else { r::int(rng.range(0, 2) as i64) };
                    for (a, b) in rest.iter_mut().zip(row) {
                        *a -= x * b;
                    }
                }
            }
            let z = if rng.chance(1, 2) { Scalar::one() } else { r::scalar(rng) };
            m[p] = rest.iter().map(|a| a * z).collect();
        }
        // rank by our elimination: a solution for each row in terms of the others
        let solvable = coefs(ctx, &m);
        match solvable {
            Some(true) => {
                ctx.count("systems solved", 1);
                if singular {
                    ctx.count("singular systems solved", 1);
                }
            }
            Some(false) => ctx.count("systems without solution", 1),
            None => {}
        }
        let sig = m.iter().flatten().take(40).map(|x| hex::encode(&x.to_bytes()[..4])).collect::<String>();
        ctx.eval(Some(&format!("{n} {k} {sig}")));
    });
    ctx.phase("degenerate", 8, 8, |ctx, _| {
        for mut m in [vec![], vec![vec![]], vec![vec![], vec![]]] {
            match ctx.guard("span_coefs", || Sch::span_coefs(&mut m)) {
                Some(Ok(Some(x))) if !x.is_empty() => ctx.violation("coefficients for no row", json!({})),
                _ => {}
            }
        }
    });
}
