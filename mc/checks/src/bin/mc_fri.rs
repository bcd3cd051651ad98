//! C06 verdict of the low-degree test, C07 its prover, C08 degree bounds
#![allow(dead_code, unused_imports)]
use checks::field::*;
use checks::fri::*;
use checks::open::*;
use checks::refs::*;
use checks::stark::*;
use checks::*;
use ff::{Field, PrimeField};
use hodor::fri::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::*;
use hodor::polynomials::*;
use mcrt::engine::*;
use mcrt::ensure;
use mcrt::sched::Order;

type Fri<F, I> = NaiveFriIop<F, I>;
type Sk = bigf::stark::Fr;

fn main() {
    mcrt::engine::main(&[
        Property { id: "C06", build: c06, space: "over a 17-element field with the vector as its own commitment: every challenge, opened value, final coefficient and expected value for one round, every position; two and three rounds over reduced alphabets; tables of up to 2^17 entries with fewer changes. With the real tree: degrees 2..32 (128 thorough) x extension 2..16 x final sizes x every position x every single change of every component, every pair of claimed positions, every size parameter, every table with one altered entry in one layer recommitted with or without refolding",
            assumptions: &["collisions of the hash function do not occur", "positions handed to the test are odd, an even position may be refused"] },
        Property { id: "C07", build: c07, space: "degrees 2..64 (256 thorough; tables up to 2^17, thorough 2^20, on fewer CPU counts and positions) x extension 2..16 x final sizes x inputs {every monomial, dense, zero, constant} x CPU counts 1..100 x three task orders, both algorithms; every odd position of each proof; all impossible sizes",
            assumptions: &["for the configurations of the recorded finding D1 the exact wrong layers of the coefficient algorithm are part of the model"] },
        Property { id: "C08", build: c08, space: "tables of every monomial at and above the bound, alone and on top of a low-degree part, folded honestly; every claimed (degree, factor, rounds, final size) for them; every position; whole proofs by provers that claim other sizes for tables that are not of low degree",
            assumptions: &["collisions of the hash function do not occur"] },
    ])
}

fn values<F: PrimeField>(c: &[F], n: usize) -> Vec<F> { eval_all(c, n, F::one()) }
fn vpoly<F: PrimeField>(v: &[F]) -> Polynomial<F, Values> { Polynomial::from_values(v.to_vec()).expect("power of two") }

// ------------------------------------------------------------------------------------------ C06

/// the verdict of the code: None for an error
fn verdict<F: PrimeField, I: IOP<F>>(p: &FRIProof<F, I>, idx: usize, e: F) -> Option<bool> { <Fri<F, I> as FriIop<F>>::verify_proof(p, idx, e).ok() }

fn judge_open<F: PrimeField>(ctx: &mut Ctx, p: &FRIProof<F, OpenIop<F>>, idx: usize, e: F, what: impl Fn() -> String) -> Result<bool, Fail> {
    ctx.step(1);
    let got = quiet(|| verdict(p, idx, e)).map_err(|m| format!("{}: {}", what(), m))?;
    let want = links_open(p, idx, e);
    match (got, &want) {
        (Some(true), Ok(())) => ctx.outcome("accepted"),
        (Some(true), Err(w)) => return Err(format!("{}: accepted although: {}", what(), w).into()),
        (Some(false), Ok(())) | (None, Ok(())) if idx % 2 == 1 => return Err(format!("{}: not accepted ({}) although every link holds", what(), if got.is_none() { "error" } else { "rejected" }).into()),
        (_, Ok(())) => ctx.outcome("even position refused"),
        (Some(false), Err(w)) => ctx.outcome(&format!("rejected: {}", w)),
        (None, Err(w)) => ctx.outcome(&format!("error: {}", w)),
    }
    // the same proof with the openings of the code
    #[cfg(hodor_verif_query)]
    if p.queries.iter().all(|q| q.natural == q.tree) {
        let q = FRIProof::<F, TrivialBlake2sIOP<F>> { queries: p.queries.iter().map(|q| TrivialBlake2sIopQuery::<F>::verif_from_parts(q.tree, q.value, q.path.clone())).collect(), roots: p.roots.clone(), final_coefficients: p.final_coefficients.clone(), initial_degree_plus_one: p.initial_degree_plus_one, output_coeffs_at_degree_plus_one: p.output_coeffs_at_degree_plus_one, lde_factor: p.lde_factor };
        let real = quiet(|| verdict(&q, idx, e)).map_err(|m| format!("{}: {}", what(), m))?;
        if real != got { return Err(format!("{}: {:?} with the openings of the code, {:?} with the same openings of the harness", what(), real, got).into()) }
        ctx.step(1);
    }
    Ok(got == Some(true))
}

fn plain_table<F: PrimeField>(n: usize, at: &[(usize, F)], c: F) -> Plain { let mut v = vec![F::zero(); n]; for (i, x) in at { v[*i] = *x } Plain::new(c, &v) }
fn plain_queries<F: PrimeField>(n: usize, at: &[(usize, F)]) -> Vec<PlainQuery<F>> { at.iter().map(|(i, x)| PlainQuery { index: *i, value: *x, path: vec![Plain(vec![]); log2(n) as usize] }).collect() }

fn judge_plain<F: PrimeField>(ctx: &mut Ctx, p: &FRIProof<F, PlainIop<F>>, idx: usize, e: F, count: &mut [u64; 2]) -> R {
    ctx.step(1);
    let got = verdict(p, idx, e) == Some(true);
    let want = links_plain(p, idx, e).is_ok();
    count[got as usize] += 1;
    if got == want { return Ok(()) }
    Err(format!("position {} of {}x{}: values {:?}, final {:?}, expected value {:?}, roots {:?}: code says {}, definition says {}", idx, p.initial_degree_plus_one, p.lde_factor,
        p.queries.iter().map(|q| (q.index, q.value)).collect::<Vec<_>>(), p.final_coefficients, e, p.roots.iter().map(|r| r.get(0)).collect::<Vec<_>>(), got, want).into())
}

/// one round, everything enumerated
fn one_round(ctx: &mut Ctx, deg: usize, lde: usize, idx: usize, c: F17) -> R {
    let n = deg * lde;
    let out = deg / 2;
    let (a, b, _) = positions(idx, n, 1)[0];
    let f = |k: u64| F17::new(k);
    let mut count = [0; 2];
    let fins: Vec<Vec<F17>> = { let mut v = vec![vec![]]; for _ in 0..out { v = v.into_iter().flat_map(|x: Vec<F17>| (0..17).map(move |k| { let mut y = x.clone(); y.push(F17::new(k)); y })).collect() } v };
    for v0 in 0..17 { for v1 in 0..17 {
        let at = [(a, f(v0)), (b, f(v1))];
        let mut p = FRIProof::<F17, PlainIop<F17>> { queries: plain_queries(n, &at), roots: vec![plain_table(n, &at, c)], final_coefficients: vec![], initial_degree_plus_one: deg, output_coeffs_at_degree_plus_one: out, lde_factor: lde };
        let right = if idx == a { f(v0) } else { f(v1) };
        for fin in fins.iter() {
            p.final_coefficients = fin.clone();
            for e in [right, add(right, F17::one()), f(if idx == a { v1 } else { v0 })] { judge_plain(ctx, &p, idx, e, &mut count)?; }
        }
        ctx.state(&(v0, v1, c.val()));
    } }
    ctx.outcomes.insert("accepted".into(), count[1]);
    ctx.outcomes.insert("not accepted".into(), count[0]);
    ctx.trace();
    Ok(())
}

/// several rounds over alphabets
fn rounds(ctx: &mut Ctx, deg: usize, lde: usize, out: usize, idx: usize, cs: &[u64], vs: &[u64]) -> R {
    let n = deg * lde;
    let r = (log2(deg) - log2(out)) as usize;
    let pos = positions(idx, n, r);
    let mut count = [0; 2];
    // choices: for each round a challenge, the value that continues (as an offset from the right one) and the other; final offset; expected offset
    let radix: Vec<usize> = (0..r).flat_map(|i| vec![cs.len(), if i == 0 { vs.len() } else { 2 }, vs.len()]).chain(vec![3, 2]).collect();
    let total: usize = radix.iter().product();
    for mut k in 0..total {
        let mut d = vec![];
        for x in radix.iter() { d.push(k % x); k /= x }
        let (mut queries, mut roots) = (vec![], vec![]);
        let mut carried = F17::zero();
        let mut expected = F17::zero();
        let mut m = n;
        for i in 0..r {
            let (a, b, cont) = pos[i];
            let c = F17::new(cs[d[3 * i]]);
            let here = if i == 0 { F17::new(vs[d[1]]) } else { add(carried, fe(d[3 * i + 1] as u64)) };
            if i == 0 { expected = here }
            let other = F17::new(vs[d[3 * i + 2]]);
            let at = if cont == a { [(a, here), (b, other)] } else { [(a, other), (b, here)] };
            queries.extend(plain_queries(m, &at));
            roots.push(plain_table(m, &at, c));
            carried = fold_at(pw(root::<F17>(log2(m)), a as u64), at[0].1, at[1].1, c);
            m /= 2;
        }
        let x = pw(root::<F17>(log2(m)), pos[r - 1].0 as u64);
        // a final polynomial whose value at x is as wanted
        let mut fin = (1..out as u64 + 1).map(|i| fe::<F17>(3 * i + 1)).collect::<Vec<_>>();
        let v = eval(&fin, x);
        fin[0] = add(fin[0], add(sub(carried, v), fe(d[3 * r] as u64)));
        let p = FRIProof::<F17, PlainIop<F17>> { queries, roots, final_coefficients: fin, initial_degree_plus_one: deg, output_coeffs_at_degree_plus_one: out, lde_factor: lde };
        judge_plain(ctx, &p, idx, add(expected, fe(d[3 * r + 1] as u64)), &mut count)?;
        if d[1] == 0 { ctx.state(&d); }
    }
    ensure!(count[1] > 0, "nothing is accepted");
    ctx.outcomes.insert("accepted".into(), count[1]);
    ctx.outcomes.insert("not accepted".into(), count[0]);
    ctx.trace();
    Ok(())
}

/// every pair of claimed positions
fn claimed_positions(ctx: &mut Ctx, deg: usize, lde: usize, out: usize, idx: usize) -> R {
    let n = deg * lde;
    let v = values::<F17>(&seq(deg, 3), n);
    let l = layers(&v, (log2(deg) - log2(out)) as usize, out, |v| fe::<F17>(1 + num(&v[1])));
    let r = l.challenges.len();
    let mut count = [0; 2];
    for round in 0..r {
        let m = n >> round;
        let big = [usize::MAX, 1 << 32, usize::MAX / 2 + 1];
        let claims: Vec<usize> = (0..n + 3).chain(big).collect();
        for &i in claims.iter() { for &j in claims.iter() {
            let (mut queries, mut roots) = (vec![], vec![]);
            for (k, (a, b, _)) in positions(idx, n, r).into_iter().enumerate() {
                let t = &l.layers[k];
                let (a, b) = if k == round { (i, j) } else { (a, b) };
                queries.extend(plain_queries(n >> k, &[(a, t[a % t.len()]), (b, t[b % t.len()])]));
                roots.push(Plain::new(l.challenges[k], t));
            }
            let _ = m;
            let p = FRIProof::<F17, PlainIop<F17>> { queries, roots, final_coefficients: l.finals.clone(), initial_degree_plus_one: deg, output_coeffs_at_degree_plus_one: out, lde_factor: lde };
            judge_plain(ctx, &p, idx, v[idx], &mut count)?;
            ctx.state(&(round, i, j));
        } }
    }
    ensure!(count[1] == r as u64, "{} accepted", count[1]);
    ctx.trace();
    Ok(())
}

fn flip(h: &mut H, bit: usize) { h[bit / 8 % 32] ^= 1 << (bit % 8) }

/// all single changes of a proof
pub fn mutations<F: PrimeField>(p: &FRIProof<F, OpenIop<F>>, all_bits: bool) -> Vec<(String, FRIProof<F, OpenIop<F>>)> {
    let mut v: Vec<(String, FRIProof<F, OpenIop<F>>)> = vec![];
    let mut m = |w: String, f: &dyn Fn(&mut FRIProof<F, OpenIop<F>>)| { let mut q = clone_proof(p); f(&mut q); v.push((w, q)) };
    let bits: Vec<usize> = if all_bits { (0..256).collect() } else { vec![0, 7, 100, 255] };
    let n = p.initial_degree_plus_one * p.lde_factor;
    let nq = p.queries.len();
    for i in 0..nq {
        for (dn, d) in [("+1", F::one()), ("-1", neg(F::one())), ("double", p.queries[i].value)] { m(format!("opening {}: value {}", i, dn), &|q| q.queries[i].value = add(q.queries[i].value, d)); }
        m(format!("opening {}: value 0", i), &|q| q.queries[i].value = F::zero());
        for k in (0..n + 2).chain([usize::MAX, 1 << 40]) {
            m(format!("opening {}: position {}", i, k), &|q| q.queries[i].natural = k);
            m(format!("opening {}: tree position {}", i, k), &|q| q.queries[i].tree = k);
            m(format!("opening {}: both positions {}", i, k), &|q| { q.queries[i].natural = k; q.queries[i].tree = k });
        }
        for e in 0..p.queries[i].path.len() {
            for &b in bits.iter() { m(format!("opening {}: path {} bit {}", i, e, b), &|q| flip(&mut q.queries[i].path[e], b)); }
            m(format!("opening {}: path without {}", i, e), &|q| { q.queries[i].path.remove(e); });
            m(format!("opening {}: path with {} twice", i, e), &|q| { let x = q.queries[i].path[e]; q.queries[i].path.insert(e, x) });
            for g in 0..e { m(format!("opening {}: path {} and {} exchanged", i, g, e), &|q| q.queries[i].path.swap(g, e)); }
        }
        m(format!("opening {}: no path", i), &|q| q.queries[i].path.clear());
        m(format!("opening {}: longer path", i), &|q| q.queries[i].path.push([0; 32]));
        m(format!("opening {}: path of 70", i), &|q| q.queries[i].path.resize(70, [1; 32]));
        for j in 0..nq { if i != j {
            if j < i { m(format!("openings {} and {} exchanged", j, i), &|q| q.queries.swap(i, j)); }
            m(format!("opening {} in place of {}", j, i), &|q| q.queries[i] = q.queries[j].clone());
            m(format!("value of opening {} in {}", j, i), &|q| q.queries[i].value = q.queries[j].value);
            m(format!("path of opening {} in {}", j, i), &|q| q.queries[i].path = q.queries[j].path.clone());
        } }
        m(format!("without opening {}", i), &|q| { q.queries.remove(i); });
        m(format!("opening {} twice", i), &|q| { let x = q.queries[i].clone(); q.queries.insert(i, x) });
    }
    for r in 0..p.roots.len() {
        for &b in bits.iter() { m(format!("root {} bit {}", r, b), &|q| flip(&mut q.roots[r], b)); }
        m(format!("without root {}", r), &|q| { q.roots.remove(r); });
        m(format!("root {} twice", r), &|q| { let x = q.roots[r]; q.roots.insert(r, x) });
        for s in 0..r { m(format!("roots {} and {} exchanged", s, r), &|q| q.roots.swap(s, r)); m(format!("root {} in place of {}", s, r), &|q| q.roots[r] = q.roots[s]); }
        m(format!("without round {}", r), &|q| { q.roots.remove(r); q.queries.drain(2 * r..2 * r + 2); });
        m(format!("round {} twice", r), &|q| { let x = q.roots[r]; q.roots.insert(r, x); let (a, b) = (q.queries[2 * r].clone(), q.queries[2 * r + 1].clone()); q.queries.insert(2 * r, b); q.queries.insert(2 * r, a) });
        m(format!("pair {} reversed", r), &|q| q.queries.swap(2 * r, 2 * r + 1));
    }
    for i in 0..p.final_coefficients.len() {
        m(format!("final coefficient {} + 1", i), &|q| q.final_coefficients[i] = add(q.final_coefficients[i], F::one()));
        m(format!("final coefficient {} negated", i), &|q| q.final_coefficients[i] = neg(q.final_coefficients[i]));
        m(format!("final coefficient {} zero", i), &|q| q.final_coefficients[i] = F::zero());
        m(format!("without final coefficient {}", i), &|q| { q.final_coefficients.remove(i); });
        for j in 0..i { m(format!("final coefficients {} and {} exchanged", j, i), &|q| q.final_coefficients.swap(i, j)); }
    }
    m("another final coefficient 0".into(), &|q| q.final_coefficients.push(F::zero()));
    m("another final coefficient 1".into(), &|q| q.final_coefficients.push(F::one()));
    m("twice the final coefficients, zeros".into(), &|q| { let k = q.final_coefficients.len(); q.final_coefficients.resize(2 * k, F::zero()) });
    m("twice the final coefficients, zeros, said".into(), &|q| { let k = q.final_coefficients.len(); q.final_coefficients.resize(2 * k, F::zero()); q.output_coeffs_at_degree_plus_one = 2 * k });
    m("no final coefficients".into(), &|q| q.final_coefficients.clear());
    m("no final coefficients, said".into(), &|q| { q.final_coefficients.clear(); q.output_coeffs_at_degree_plus_one = 0 });
    m("no openings".into(), &|q| q.queries.clear());
    m("no roots".into(), &|q| q.roots.clear());
    m("no rounds".into(), &|q| { q.roots.clear(); q.queries.clear() });
    let sz = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 64, 128, 1 << 20, 1 << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63, usize::MAX];
    for s in sz { m(format!("final size {}", s), &|q| q.output_coeffs_at_degree_plus_one = s); }
    for s in sz { for t in sz { m(format!("degree {} factor {}", s, t), &|q| { q.initial_degree_plus_one = s; q.lde_factor = t }); } }
    for s in sz { m(format!("degree {}", s), &|q| q.initial_degree_plus_one = s); m(format!("factor {}", s), &|q| q.lde_factor = s); }
    v
}

fn real_single<F: PrimeField>(ctx: &mut Ctx, d: usize, l: usize, o: usize, all: bool) -> R {
    let n = d * l;
    let v = values::<F>(&seq(d, 17), n);
    let r = (log2(d) - log2(o)) as usize;
    let lay = layers(&v, r, o, tree_challenge::<F>);
    let mut idxs: Vec<usize> = (0..n).collect();
    if !all && n > 16 { idxs = vec![0, 1, 2, 3, n / 2 - 1, n / 2 + 1, n - 1] }
    for (ii, &idx) in idxs.iter().enumerate() {
        let p = open_proof(&lay.layers[..r], &lay.finals, idx, d, l);
        let what = |w: &str| format!("degree {}, factor {}, final {}, position {}: {}", d, l, o, idx, w);
        let ok = judge_open(ctx, &p, idx, v[idx], || what("honest"))?;
        ensure!(ok || idx % 2 == 0, "{}", what("honest proof is not accepted"));
        for j in (0..n + 3).chain([usize::MAX, 1 << 40]) {
            judge_open(ctx, &p, j, v[j % n], || what(&format!("used at position {}", j)))?;
            judge_open(ctx, &p, j, v[idx], || what(&format!("used at position {}, value of its own", j)))?;
        }
        judge_open(ctx, &p, idx, add(v[idx], F::one()), || what("another expected value"))?;
        judge_open(ctx, &p, idx, v[(idx + n / 2) % n], || what("value of the other point"))?;
        judge_open(ctx, &p, idx, F::zero(), || what("zero expected"))?;
        for (w, q) in mutations(&p, ii < 2 && all) { judge_open(ctx, &q, idx, v[idx], || what(&w))?; ctx.state(&(idx, &w)); }
        // the first opening and the expected value changed alike
        for i in 0..2 { let mut q = clone_proof(&p); q.queries[i].value = add(q.queries[i].value, F::one()); let e = q.queries[i].value; judge_open(ctx, &q, idx, e, || what("first value and expected value changed"))?; }
        ctx.trace();
    }
    Ok(())
}

/// proofs over large tables: honest ones, and changes of every opening
fn large_single<F: PrimeField>(ctx: &mut Ctx, d: usize, l: usize, o: usize) -> R {
    let n = d * l;
    let v = values::<F>(&seq(d, 17), n);
    let r = (log2(d) - log2(o)) as usize;
    let lay = layers(&v, r, o, tree_challenge::<F>);
    // positions outside, with the openings they would have
    for j in [n, n + 1, n + n / 2, 2 * n, 2 * n + 1] {
        let p = open_proof(&lay.layers[..r], &lay.finals, j % n, d, l);
        judge_open(ctx, &p, j, v[j % n], || format!("degree {}, factor {}, final {}, position {} of {} with openings of {}", d, l, o, j, n, j % n))?;
        let mut q = clone_proof(&p);
        for x in q.queries.iter_mut().take(2) { if x.natural == j % n { x.natural = j; x.tree = j } }
        judge_open(ctx, &q, j, v[j % n], || format!("degree {}, factor {}, final {}, position {} of {}", d, l, o, j, n))?;
    }
    for idx in (1..log2(n)).flat_map(|k| [(1 << k) - 1, (1 << k) + 1]).chain([n - 1]).filter(|i| *i == 3 || *i > n / 9) {
        let p = open_proof(&lay.layers[..r], &lay.finals, idx, d, l);
        let what = |w: &str| format!("degree {}, factor {}, final {}, position {}: {}", d, l, o, idx, w);
        ensure!(judge_open(ctx, &p, idx, v[idx], || what("honest"))?, "{}", what("honest proof is not accepted"));
        for b in 0..log2(n) { let j = idx ^ (1 << b); for e in [v[j], v[idx]] { judge_open(ctx, &p, j, e, || what(&format!("used at position {}", j)))?; } }
        for j in [idx + n, idx + 2 * n, idx + (1 << 32)] { judge_open(ctx, &p, j, v[idx], || what(&format!("used at position {}", j)))?; }
        judge_open(ctx, &p, idx, add(v[idx], F::one()), || what("another expected value"))?;
        let mut one = |w: String, f: &dyn Fn(&mut FRIProof<F, OpenIop<F>>)| -> R { let mut q = clone_proof(&p); f(&mut q); ctx.state(&(idx, &w)); judge_open(ctx, &q, idx, v[idx], || what(&w))?; Ok(()) };
        for i in 0..2 * r {
            one(format!("opening {}: value", i), &|q| q.queries[i].value = add(q.queries[i].value, F::one()))?;
            for b in 0..log2(n) + 1 {
                one(format!("opening {}: both positions, bit {}", i, b), &|q| { q.queries[i].natural ^= 1 << b; q.queries[i].tree ^= 1 << b })?;
                one(format!("opening {}: position, bit {}", i, b), &|q| q.queries[i].natural ^= 1 << b)?;
                one(format!("opening {}: tree position, bit {}", i, b), &|q| q.queries[i].tree ^= 1 << b)?;
            }
            for e in 0..p.queries[i].path.len() { one(format!("opening {}: path {}", i, e), &|q| flip(&mut q.queries[i].path[e], 13 * e))?; }
        }
        for i in 0..r { one(format!("root {}", i), &|q| flip(&mut q.roots[i], 17 * i))?; }
        for i in 0..o { one(format!("final coefficient {}", i), &|q| q.final_coefficients[i] = add(q.final_coefficients[i], F::one()))?; }
        // trees of another shape: with a level above, or with a leaf one level up; folded with the challenges of these roots
        let lay0 = &lay;
        if n <= 1 << 12 { for k in 0..r { for shape in 0..4usize {
            let m = n >> k;
            let lay;
            let forged: Vec<((usize, Vec<H>), H)>;
            let (a, b, _) = positions(idx, n, r)[k];
            {
                // the layers before this one are as they are, and so is this one
                let t = lay0.layers[k].clone();
                let lv = levels(&t);
                let (root, paths): (H, Vec<(usize, Vec<H>)>) = if shape < 2 {
                    let other = [7u8; 32];
                    let root = if shape == 0 { node::<F>(&root_of(&lv), &other, 0) } else { node::<F>(&other, &root_of(&lv), 0) };
                    (root, [a, b].iter().map(|i| { let mut q = path_of(&lv, *i); q.push(other); (*i, q) }).collect())
                } else {
                    if m < 4 { continue }
                    // the node above one leaf is replaced by the other opened leaf of this pair
                    let i = [a, b][shape - 2];
                    let up = i % (m / 2);
                    let mut hs = lv[1].clone();
                    hs[up] = leaf(&t[i]);
                    let mut top = vec![hs];
                    while top.last().unwrap().len() > 1 { let x = top.last().unwrap(); let y = (0..x.len() / 2).map(|i| node::<F>(&x[2 * i], &x[2 * i + 1], 0)).collect(); top.push(y) }
                    (root_of(&top), [a, b].iter().map(|&j| if j == i { (up, path_of(&top, up)) } else { let mut q = vec![lv[0][j ^ 1]]; q.extend(path_of(&top, j >> 1)); (j, q) }).collect())
                };
                let c = hodor::iop::blake2s_trivial_iop::Blake2sIopTree::<F>::encode_root_into_challenge(&root);
                let at = std::cell::Cell::new(0);
                lay = layers(&v, r, o, |x| { let here = at.get(); at.set(here + 1); if here == k { c } else { tree_challenge::<F>(x) } });
                forged = paths.into_iter().map(|p| (p, root)).collect();
            }
            let mut q = open_proof(&lay.layers[..r], &lay.finals, idx, d, l);
            q.roots[k] = forged[0].1;
            for (w, ((_, path), _)) in forged.into_iter().enumerate() { q.queries[2 * k + w].path = path; }
            judge_open(ctx, &q, idx, v[idx], || what(&format!("tree of layer {} in shape {}", k, shape)))?;
            // positions in the tree as the path has them
            let deep = q.queries[2 * k].path.len().min(60);
            for w in 0..2 { let e = q.queries[2 * k + w].path.len(); q.queries[2 * k + w].tree &= (1 << e) - 1; if shape == 1 { q.queries[2 * k + w].tree |= 1 << (deep - 1) } }
            judge_open(ctx, &q, idx, v[idx], || what(&format!("tree of layer {} in shape {}, positions in that tree", k, shape)))?;
            for w in 0..2 { q.queries[2 * k + w].natural = q.queries[2 * k + w].tree }
            judge_open(ctx, &q, idx, v[idx], || what(&format!("tree of layer {} in shape {}, all positions in that tree", k, shape)))?;
            ctx.state(&(idx, k, shape));
        } } }
        // a value altered together with everything after it
        for k in 0..r {
            let mut ls = lay.layers.clone();
            let at = positions(idx, n, r)[k].0;
            ls[k][at] = add(ls[k][at], F::one());
            let q = open_proof(&ls[..r], &lay.finals, idx, d, l);
            for e in [v[idx], ls[0][idx]] { judge_open(ctx, &q, idx, e, || what(&format!("layer {} altered at {}", k, at)))?; }
            if ls.len() > 3 && n > 1 << 14 && k > 2 { break }
        }
        ctx.trace();
    }
    Ok(())
}

/// one entry of one layer altered, the tree rebuilt; later layers kept or folded again; final coefficients kept or computed again
fn altered_layers<F: PrimeField>(ctx: &mut Ctx, d: usize, l: usize, o: usize) -> R {
    let n = d * l;
    let v = values::<F>(&seq(d, 29), n);
    let r = (log2(d) - log2(o)) as usize;
    let lay = layers(&v, r, o, tree_challenge::<F>);
    let mut accepted_somewhere = 0u64;
    for layer in 0..r { for p in 0..n >> layer { for refold in [false, true] { for refinal in [false, true] {
        let mut ls = lay.layers.clone();
        ls[layer][p] = add(ls[layer][p], F::one());
        if refold { for k in layer..r { ls[k + 1] = fold(&ls[k], tree_challenge::<F>(&ls[k])) } }
        let finals = if refinal { let mut f = interpolate_domain(&ls[r], F::one()); f.truncate(o); f } else { lay.finals.clone() };
        for idx in (1..n).step_by(2) {
            let proof = open_proof(&ls[..r], &finals, idx, d, l);
            let what = || format!("degree {}, factor {}, final {}: entry {} of layer {} altered, refold {}, final again {}, position {}", d, l, o, p, layer, refold, refinal, idx);
            for e in [v[idx], ls[0][idx]] { if judge_open(ctx, &proof, idx, e, what)? { accepted_somewhere += 1 } }
        }
        ctx.state(&(layer, p, refold, refinal));
    } } } }
    let _ = accepted_somewhere;
    ctx.trace();
    Ok(())
}

/// the same, for the prototype of the prover
fn prototypes<F: PrimeField>(ctx: &mut Ctx, d: usize, l: usize, o: usize) -> R {
    let n = d * l;
    let v = values::<F>(&seq(d, 31), n);
    let r = (log2(d) - log2(o)) as usize;
    let make = || on(1, Order::Fifo, |w| Fri::<F, OpenIop<F>>::proof_from_lde_by_values(&vpoly(&v), l, o, w)).map_err(|e| format!("{:?}", e));
    let mut proto = make()?;
    let chain = |first: &[F], vals: &[Vec<F>], cs: &[F], fin: &[F], idx: usize| -> bool {
        let mut m = n;
        let mut carried: Option<F> = None;
        for (k, (a, b, cont)) in positions(idx, n, r).into_iter().enumerate() {
            let t = if k == 0 { first } else { &vals[k - 1][..] };
            if let Some(c) = carried { if t[cont] != c { return false } }
            carried = Some(fold_at(pw(root::<F>(log2(m)), a as u64), t[a], t[b], cs[k]));
            m /= 2;
        }
        eval(fin, pw(root::<F>(log2(m)), positions(idx, n, r)[r - 1].0 as u64)) == carried.unwrap()
    };
    let mut check = |ctx: &mut Ctx, proto: &FRIProofPrototype<F, OpenIop<F>>, first: &[F], what: &str| -> R {
        let vals: Vec<Vec<F>> = proto.intermediate_values.iter().map(|p| p.as_ref().to_vec()).collect();
        for idx in 0..n {
            ctx.step(1);
            let got = quiet(|| Fri::<F, OpenIop<F>>::verify_prototype(proto, &vpoly(first), idx).ok()).map_err(|m| format!("{}: {}", what, m))?;
            let want = chain(first, &vals, &proto.challenges, &proto.final_coefficients, idx);
            ensure!(got == Some(want) || (idx % 2 == 0 && got != Some(true)), "degree {}, factor {}, final {}, {}, position {}: prototype is said to be {:?}, by definition {}", d, l, o, what, idx, got, want);
        }
        ctx.trace();
        Ok(())
    };
    check(ctx, &proto, &v, "honest")?;
    for p in 0..n { let mut f = v.clone(); f[p] = add(f[p], F::one()); check(ctx, &proto, &f, &format!("table altered at {}", p))?; }
    for k in 0..r { let c = proto.challenges[k]; proto.challenges[k] = add(c, F::one()); check(ctx, &proto, &v, &format!("challenge {} altered", k))?; proto.challenges[k] = c; }
    for k in 0..o { let c = proto.final_coefficients[k]; proto.final_coefficients[k] = neg(c); check(ctx, &proto, &v, &format!("final coefficient {} altered", k))?; proto.final_coefficients[k] = c; }
    for k in 0..proto.intermediate_values.len() { for p in 0..proto.intermediate_values[k].size() {
        let c = proto.intermediate_values[k].as_ref()[p];
        proto.intermediate_values[k].as_mut()[p] = add(c, F::one());
        check(ctx, &proto, &v, &format!("layer {} altered at {}", k, p))?;
        proto.intermediate_values[k].as_mut()[p] = c;
        ctx.state(&(k, p));
    } }
    Ok(())
}

fn c06(c: &mut Cases) {
    for (deg, lde) in [(2usize, 2usize), (2, 4), (2, 8), (4, 2), (4, 4)] {
        let n = deg * lde;
        for idx in (1..n).step_by(2) {
            if !c.thorough && deg == 4 && (idx != 1 && idx != n - 1 && idx != n / 2 + 1) { continue }
            for ch in 0..17u64 { if deg == 4 && !c.thorough && ch % 4 != 1 && ch != 0 { continue } c.add(format!("one-round/{}x{}/position={}/challenge={}", deg, lde, idx, ch), move |ctx| one_round(ctx, deg, lde, idx, F17::new(ch))); }
        }
    }
    let all: Vec<u64> = (0..17).collect();
    for (deg, lde, out) in [(4usize, 2usize, 1usize), (4, 4, 1), (8, 2, 2), (8, 2, 1)] {
        let n = deg * lde;
        for idx in (1..n).step_by(2) {
            let three = deg / out == 8;
            let (cs, vs) = if three { (vec![0, 1, 6], if c.thorough { vec![0, 1, 2, 16] } else { vec![0, 1, 16] }) } else { (vec![0, 1, 5, 16], if c.thorough { all.clone() } else { vec![0, 1, 2, 7, 16] }) };
            c.add(format!("rounds/{}x{}->{}/position={}", deg, lde, out, idx), move |ctx| rounds(ctx, deg, lde, out, idx, &cs, &vs));
        }
    }
    for (deg, lde, out) in [(2usize, 2usize, 1usize), (2, 4, 1), (4, 2, 1), (4, 2, 2), (4, 4, 1), (8, 2, 1), (8, 2, 2)] {
        for idx in (1..deg * lde).step_by(2) { c.add(format!("claimed-positions/{}x{}->{}/position={}", deg, lde, out, idx), move |ctx| claimed_positions(ctx, deg, lde, out, idx)); }
    }
    let (md, ml, mn) = if c.thorough { (7, 5, 8) } else { (5, 4, 6) };
    for (d, l, o) in sizes(md, ml, mn) {
        let all = c.thorough;
        c.add(format!("changes/f62/{}x{}->{}", d, l, o), move |ctx| real_single::<F62>(ctx, d, l, o, all));
        if d * l <= 16 { c.add(format!("changes/f257/{}x{}->{}", d, l, o), move |ctx| real_single::<F257>(ctx, d, l, o, all)); }
        if d * l <= 16 && l <= 4 { c.add(format!("changes/stark/{}x{}->{}", d, l, o), move |ctx| real_single::<Sk>(ctx, d, l, o, all)); }
    }
    for (d, l, o) in [(1usize << 9, 2usize, 1usize), (1 << 13, 1 << 1, 1), (1 << 12, 1 << 5, 1 << 4), (1 << 16, 1 << 1, 1)].into_iter().chain(if c.thorough { vec![(1 << 17, 4, 2), (1 << 11, 1 << 7, 1)] } else { vec![] }) {
        c.add(format!("large/f62/{}x{}->{}", d, l, o), move |ctx| large_single::<F62>(ctx, d, l, o));
    }
    let (md, ml, mn) = if c.thorough { (6, 3, 7) } else { (5, 3, 6) };
    for (d, l, o) in sizes(md, ml, mn) {
        c.add(format!("altered/f62/{}x{}->{}", d, l, o), move |ctx| altered_layers::<F62>(ctx, d, l, o));
        if d * l <= 16 { c.add(format!("altered/f97/{}x{}->{}", d, l, o), move |ctx| altered_layers::<F97>(ctx, d, l, o)); }
        c.add(format!("prototype/f62/{}x{}->{}", d, l, o), move |ctx| prototypes::<F62>(ctx, d, l, o));
        if d * l <= 16 { c.add(format!("prototype/f257/{}x{}->{}", d, l, o), move |ctx| prototypes::<F257>(ctx, d, l, o)); }
    }
}

// ------------------------------------------------------------------------------------------ C07

fn compare_proto<F: PrimeField>(p: &FRIProofPrototype<F, TrivialBlake2sIOP<F>>, want: &Layers<F>, d: usize, l: usize, o: usize, what: &dyn Fn() -> String) -> R {
    let r = want.challenges.len();
    let roots: Vec<H> = want.layers.iter().map(|v| root_of(&levels(v))).collect();
    ensure!(p.challenges == want.challenges, "{}: challenges differ", what());
    ensure!(p.intermediate_values.len() == r, "{}: {} folded layers instead of {}", what(), p.intermediate_values.len(), r);
    for k in 0..r {
        ensure!(p.intermediate_values[k].as_ref() == &want.layers[k + 1][..], "{}: layer {} is not the fold of the layer before", what(), k + 1);
        ensure!(p.intermediate_values[k].omega == root::<F>(log2(want.layers[k + 1].len())), "{}: layer {} has domain parameters of another size", what(), k + 1);
    }
    ensure!(p.final_coefficients == want.finals, "{}: final coefficients differ", what());
    ensure!(p.l0_commitment.get_root() == roots[0], "{}: first commitment differs", what());
    ensure!(p.intermediate_commitments.len() == r && (0..r).all(|k| p.intermediate_commitments[k].get_root() == roots[k + 1]), "{}: commitments differ", what());
    ensure!(p.final_root == roots[r] && p.get_final_root() == roots[r], "{}: final root differs", what());
    ensure!(p.get_roots() == roots[..r].to_vec(), "{}: roots handed out are not those of the folded layers", what());
    ensure!(p.get_final_coefficients() == want.finals, "{}: final coefficients handed out differ", what());
    ensure!(p.initial_degree_plus_one == d && p.lde_factor == l && p.output_coeffs_at_degree_plus_one == o, "{}: sizes differ", what());
    Ok(())
}

fn prover<F: PrimeField>(ctx: &mut Ctx, coeffs: &[F], d: usize, l: usize, o: usize, cpus: usize, order: Order, verify: Option<&[usize]>) -> R {
    type B<F> = TrivialBlake2sIOP<F>;
    let n = d * l;
    let v = values(coeffs, n);
    let r = (log2(d) - log2(o)) as usize;
    let want = layers(&v, r, o, tree_challenge::<F>);
    let what = || format!("degree {}, factor {}, final {}, {} CPUs, {:?}", d, l, o, cpus, order);
    ctx.step(3);
    let a = on(cpus, order, |w| Fri::<F, B<F>>::proof_from_lde_by_values(&vpoly(&v), l, o, w)).map_err(|e| format!("{}: {:?}", what(), e))?;
    compare_proto(&a, &want, d, l, o, &|| format!("{}, by values", what()))?;
    let t = on(cpus, order, |w| <Fri<F, B<F>> as FriIop<F>>::proof_from_lde(&vpoly(&v), l, o, w)).map_err(|e| format!("{}: {:?}", what(), e))?;
    compare_proto(&t, &want, d, l, o, &|| format!("{}, default", what()))?;
    let b = on(cpus, order, |w| Fri::<F, B<F>>::proof_from_lde_through_coefficients(vpoly(&v), l, o, w)).map_err(|e| format!("{}: {:?}", what(), e))?;
    if d1(cpus, l) {
        // the layers after the first are extended by lde: finding D1
        let mut cur = v.clone();
        let mut co = coeffs.to_vec();
        co.resize(d, F::zero());
        let mut wrong = Layers { layers: vec![v.clone()], challenges: vec![], finals: vec![] };
        for _ in 0..r {
            let c = tree_challenge(&cur);
            co = co.chunks(2).map(|x| add(x[0], mul(c, x[1]))).collect();
            cur = d1_values(&values(&co, co.len() * l), cpus, l);
            wrong.challenges.push(c);
            wrong.layers.push(cur.clone());
        }
        wrong.finals = co;
        if compare_proto(&b, &want, d, l, o, &what).is_err() {
            compare_proto(&b, &wrong, d, l, o, &|| format!("{}, through coefficients (neither right nor as in D1)", what()))?;
            ctx.finding("D1/through_coefficients", &format!("proof_from_lde_through_coefficients differs from the fold ({})", what()));
        }
    } else {
        compare_proto(&b, &want, d, l, o, &|| format!("{}, through coefficients", what()))?;
        ensure!(a.challenges == b.challenges && a.intermediate_values == b.intermediate_values && a.final_coefficients == b.final_coefficients && a.get_roots() == b.get_roots(), "{}: the two algorithms differ", what());
    }
    ctx.state(&(d, l, o, cpus, format!("{:?}", order), coeffs.iter().map(|c| format!("{}", c)).collect::<Vec<_>>()));
    ctx.trace();
    let at = match verify { Some(at) => at, None => return Ok(()) };
    let trees: Vec<Vec<Vec<H>>> = want.layers[..r].iter().map(|v| levels(v)).collect();
    for &idx in at {
        ctx.step(3);
        let proto = on(1, Order::Fifo, |w| Fri::<F, B<F>>::proof_from_lde_by_values(&vpoly(&v), l, o, w)).map_err(|e| format!("{:?}", e))?;
        ensure!(matches!(Fri::<F, B<F>>::verify_prototype(&proto, &vpoly(&v), idx), Ok(true)), "{}, position {}: prototype is not valid", what(), idx);
        let p = <Fri<F, B<F>> as FriIop<F>>::prototype_into_proof(proto, &vpoly(&v), idx).map_err(|e| format!("{}, position {}: {:?}", what(), idx, e))?;
        ensure!(p.queries.len() == 2 * r && p.roots.len() == r, "{}, position {}: {} openings, {} roots", what(), idx, p.queries.len(), p.roots.len());
        ensure!(p.get_roots() == &p.roots[..] && p.get_final_coefficients() == &want.finals[..] && p.get_initial_degree_plus_one() == d && p.get_lde_factor() == l && p.output_coeffs_at_degree_plus_one == o, "{}: parts handed out differ", what());
        for (k, (a, b, _)) in positions(idx, n, r).into_iter().enumerate() {
            let t = &trees[k];
            ensure!(p.roots[k] == root_of(t), "{}, position {}: root of layer {}", what(), idx, k);
            for (q, i) in [(&p.queries[2 * k], a), (&p.queries[2 * k + 1], b)] {
                ensure!(q.natural_index() == i && q.value() == want.layers[k][i] && q.path() == &path_of(t, i)[..], "{}, position {}: opening in layer {} is not that of position {}", what(), idx, k, i);
            }
        }
        let ok = <Fri<F, B<F>> as FriIop<F>>::verify_proof(&p, idx, v[idx]);
        ensure!(matches!(ok, Ok(true)), "{}, position {}: own proof is not accepted: {:?}", what(), idx, ok.map_err(|e| format!("{:?}", e)));
        ctx.outcome("own proof accepted");
    }
    Ok(())
}

fn inputs<F: PrimeField>(d: usize, all: bool) -> Vec<Vec<F>> {
    let mut v = vec![seq(d, 41), vec![F::zero(); d], vec![fe::<F>(7)], vec![F::one(); d]];
    let unit = |i: usize| { let mut u = vec![F::zero(); d]; u[i] = F::one(); u };
    if all { for i in 0..d { v.push(unit(i)) } } else { v.push(unit(d - 1)) }
    v
}

fn c07_field<F: PrimeField>(c: &mut Cases, name: &'static str, md: u32, ml: u32, mn: u32) {
    for (d, l, o) in sizes(md, ml, mn) {
        if log2(d * l) > F::S { continue }
        let t = c.thorough;
        c.add(format!("prover/{}/{}x{}->{}", name, d, l, o), move |ctx| {
            let odd: Vec<usize> = (1..d * l).step_by(2).collect();
            for (k, co) in inputs::<F>(d, d <= 16 || t).into_iter().enumerate() {
                let ms = if k == 0 { machines(t || d * l <= 64) } else { vec![(1, Order::Fifo), (3, Order::Lifo), (17, Order::Eager), (4, Order::Fifo)] };
                for (i, (cpus, ord)) in ms.into_iter().enumerate() { prover::<F>(ctx, &co, d, l, o, cpus, ord, if i == 0 && k < 2 { Some(&odd) } else { None })?; }
            }
            Ok(())
        });
    }
}

fn c07(c: &mut Cases) {
    let t = c.thorough;
    c07_field::<F62>(c, "f62", if t { 8 } else { 6 }, if t { 5 } else { 4 }, if t { 10 } else { 8 });
    c07_field::<F257>(c, "f257", if t { 6 } else { 4 }, 4, if t { 8 } else { 7 });
    c07_field::<Sk>(c, "stark", if t { 6 } else { 3 }, 4, if t { 8 } else { 5 });
    // large tables
    for (ln, k) in if t { (9..=15u32).zip(0..).collect::<Vec<_>>() } else { (9..=13u32).zip(0..).collect() } { for ll in [1u32, 2, 4, 7] { for lo in { let mut v = vec![0u32, 1, 3, ln - ll - 1]; v.sort(); v.dedup(); v } { for (mi, m) in machines(t).into_iter().enumerate() {
        if lo + ll + 1 > ln || (mi + k + lo as usize) % if t { 3 } else { 9 } != 0 { continue }
        c.add(format!("large/2^{}x2^{}->2^{}/cpus={}/{:?}", ln - ll, ll, lo, m.0, m.1), move |ctx| prover::<F62>(ctx, &seq(1 << (ln - ll), 41), 1 << (ln - ll), 1 << ll, 1 << lo, m.0, m.1, None));
    } } } }
    // tables of more than 2^16 elements: few machines, proofs at positions around every power of two
    for (ln, ll, lo) in [(14u32, 1u32, 0u32), (15, 3, 2), (16, 1, 4), (17, 1, 0), (17, 4, 5), (17, 12, 0)].into_iter().chain(if t { vec![(18, 2, 0), (19, 1, 3), (19, 8, 1), (20, 4, 0)] } else { vec![] }) {
        for (mi, m) in [(1, Order::Fifo), (3, Order::Lifo), (8, Order::Eager)].into_iter().enumerate() {
            c.add(format!("large/2^{}x2^{}->2^{}/cpus={}/{:?}/proofs", ln - ll, ll, lo, m.0, m.1), move |ctx| {
                let n = 1usize << ln;
                let at: Vec<usize> = if mi == 1 { (1..ln).flat_map(|k| [(1 << k) - 1, (1 << k) + 1]).chain([n - 1]).filter(|i| *i > 100).step_by(3).collect() } else { vec![n - 1, n / 2 + 1] };
                prover::<F62>(ctx, &seq(1 << (ln - ll), 41), 1 << (ln - ll), 1 << ll, 1 << lo, m.0, m.1, Some(&at))
            });
        }
    }
    c.add("every-table/f17/2x2", |ctx| {
        for k in 0..17u64 * 17 { prover::<F17>(ctx, &[fe(k % 17), fe(k / 17)], 2, 2, 1, 1 + (k % 5) as usize, ORDERS[k as usize % 3], Some(&[1, 3]))?; }
        Ok(())
    });
    // impossible sizes
    let sz = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 33, 64, 1 << 20, 1 << 63, usize::MAX];
    for ln in 1..=6u32 { for l in sz { c.add(format!("impossible/2^{}/factor={}", ln, l), move |ctx| {
        let n = 1usize << ln;
        for o in sz {
            let possible = l.is_power_of_two() && o.is_power_of_two() && l <= n && n / l > o;
            if possible && l < 2 { continue }
            if d1(1, l) && possible { continue }
            let v = if possible { values::<F62>(&seq(n / l, 3), n) } else { seq::<F62>(n, 3) };
            ctx.step(2);
            ctx.state(&o);
            for k in 0..2 {
                let r = quiet(|| on(1, Order::Fifo, |w| if k == 0 { Fri::<F62, OpenIop<F62>>::proof_from_lde_by_values(&vpoly(&v), l, o, w).map(|_| ()) } else { Fri::<F62, OpenIop<F62>>::proof_from_lde_through_coefficients(vpoly(&v), l, o, w).map(|_| ()) }.is_ok()))
                    .map_err(|m| format!("table of {}, factor {}, final size {}: {}", n, l, o, m))?;
                ensure!(r == possible, "table of {}, factor {}, final size {}: {}", n, l, o, if r { "folded" } else { "refused" });
                ctx.outcome(if r { "folded" } else { "error" });
            }
            ctx.trace();
        }
        Ok(())
    }) } }
}

// ------------------------------------------------------------------------------------------ C08

/// a table above the bound, folded honestly
fn honest_fold<F: PrimeField>(ctx: &mut Ctx, d: usize, l: usize, o: usize, exact: bool) -> R {
    let n = d * l;
    let r = (log2(d) - log2(o)) as usize;
    for k in d..n { for low in [false, true] {
        let mut co = if low { seq::<F>(d, 43) } else { vec![F::zero(); d] };
        co.resize(n, F::zero());
        co[k] = F::one();
        let v = values(&co, n);
        let lay = layers(&v, r, o, tree_challenge::<F>);
        let mut hits = 0;
        for idx in (1..n).step_by(2) {
            let p = open_proof(&lay.layers[..r], &lay.finals, idx, d, l);
            let what = || format!("x^{} with bound {}, factor {}, final {}, position {}", k, d, l, o, idx);
            if judge_open(ctx, &p, idx, v[idx], what)? { hits += 1 }
            // the prover of the code does the same
            let proto = on(1, Order::Fifo, |w| Fri::<F, OpenIop<F>>::proof_from_lde_by_values(&vpoly(&v), l, o, w)).map_err(|e| format!("{:?}", e))?;
            let q = <Fri<F, OpenIop<F>> as FriIop<F>>::prototype_into_proof(proto, &vpoly(&v), idx).map_err(|e| format!("{:?}", e))?;
            ensure!(q.queries == p.queries && q.roots == p.roots && q.final_coefficients == p.final_coefficients, "{}: the proof of the code differs", what());
        }
        // the last layer is of degree k >> r, at least the final size: it agrees with the cut polynomial in few points
        if exact { ensure!(hits == 0, "x^{} with bound {}, factor {}, final {} is accepted at {} positions", k, d, l, o, hits) }
        ctx.state(&(k, low));
        ctx.trace();
    } }
    Ok(())
}

/// every claim of sizes for one table
fn claims<F: PrimeField>(ctx: &mut Ctx, ln: u32) -> R {
    let n = 1usize << ln;
    for k in 0..n {
        let mut co = vec![F::zero(); n];
        co[k] = F::one();
        let v = values(&co, n);
        for rounds in 1..=ln as usize {
            let lay = layers(&v, rounds, n >> rounds, tree_challenge::<F>);
            for fl in 0..=ln as usize + 1 { for dl in 0..=ln as usize + 1 { for ll in 0..=ln as usize + 1 {
                let (fin, d, l) = (1usize << fl, 1usize << dl, 1usize << ll);
                let mut finals = lay.finals.clone();
                finals.resize(fin, F::zero());
                if fl > 3 && dl != fl + rounds { continue }
                for idx in [1usize, n / 2 + 1, n - 1] {
                    let p = open_proof(&lay.layers[..rounds], &finals, idx, d, l);
                    let what = || format!("x^{} on {} points, {} rounds, {} final coefficients, claimed degree {} factor {}, position {}", k, n, rounds, fin, d, l, idx);
                    if judge_open(ctx, &p, idx, v[idx], what)? {
                        ensure!(p.get_initial_degree_plus_one() == fin << rounds && p.get_initial_degree_plus_one() * p.get_lde_factor() == n, "{}: accepted", what());
                        ensure!(k < p.get_initial_degree_plus_one(), "{}: accepted as of lower degree", what());
                        ctx.outcome("accepted as of the degree it has");
                    }
                }
                ctx.state(&(k, rounds, fl, dl, ll));
                // lists of other lengths and numbers that are no powers of two
                if dl != fl + rounds && dl + ll != ln as usize { continue }
                let idx = 1;
                let base = open_proof(&lay.layers[..rounds], &finals, idx, d, l);
                let mut odd = |w: String, f: &dyn Fn(&mut FRIProof<F, OpenIop<F>>)| -> R {
                    let mut p = clone_proof(&base);
                    f(&mut p);
                    let what = || format!("x^{} on {} points, {} rounds, {} final coefficients, claimed degree {} factor {}, position {}, {}", k, n, rounds, fin, d, l, idx, w);
                    if judge_open(ctx, &p, idx, v[idx], what)? { ensure!(k < p.get_initial_degree_plus_one() && p.get_initial_degree_plus_one() * p.get_lde_factor() == n, "{}: accepted as of lower degree", what()) }
                    ctx.state(&(k, rounds, fl, dl, ll, &w));
                    Ok(())
                };
                for less in 1..=2 { odd(format!("{} openings less", less), &|p| { let m = p.queries.len() - less; p.queries.truncate(m) })? }
                for more in 1..=2 { odd(format!("{} openings more", more), &|p| for i in 0..more { let q = p.queries[i].clone(); p.queries.push(q) })?; odd(format!("{} openings more in front", more), &|p| for i in 0..more { let q = p.queries[i].clone(); p.queries.insert(0, q) })? }
                odd("a root less".to_string(), &|p| { p.roots.pop(); })?;
                odd("a root more".to_string(), &|p| { let x = p.roots[0]; p.roots.push(x) })?;
                odd("a root and its openings more".to_string(), &|p| { let x = p.roots[0]; p.roots.push(x); let q: Vec<_> = p.queries[..2].to_vec(); p.queries.extend(q) })?;
                for said in [0usize, 1, fin / 2, fin * 2, fin + 1, n] { odd(format!("said to have {} final coefficients", said), &|p| p.output_coeffs_at_degree_plus_one = said)? }
                for len in [0usize, fin - 1, fin + 1, fin + 2, 3 * fin] { for say in [false, true] { odd(format!("{} final coefficients in fact, said {}", len, say), &|p| { p.final_coefficients.resize(len, F::zero()); if say { p.output_coeffs_at_degree_plus_one = len } })? } }
                for f in [0usize, 3, l + 1, l.max(2) - 1, 3 * l] { odd(format!("factor {}", f), &|p| p.lde_factor = f)? }
                for g in [0usize, 3, d + 1, d.max(2) - 1, 3 * d] { odd(format!("degree {}", g), &|p| p.initial_degree_plus_one = g)? }
            } } }
        }
        ctx.trace();
    }
    Ok(())
}

/// whole proofs by provers that claim sizes of their own, for register and composition tables of any degree
fn protocol(ctx: &mut Ctx, i: &Inst<F62>, lde: usize, w: usize, comp: Composition) -> R {
    let r = Ref::new(&i.props);
    let n = [r.t * lde, r.cdom * lde];
    let bounds = [r.t, r.cdom];
    let polys = r.polys(&i.witness);
    // the registers, and registers above the bound
    let mut columns = vec![("true registers".to_string(), polys.clone())];
    for k in [r.t, r.t + 1, n[0] / 2, n[0] - 1] { if k >= r.t && k < n[0] { let mut p = polys.clone(); p[0].resize(n[0], F62::zero()); p[0][k].add_assign(&fe(3)); columns.push((format!("first register with x^{}", k), p)) } }
    let sc = seq::<F62>(2 * r.pairs() + 1 + r.masks.len(), 1021).iter().map(|x| x.val()).collect::<Vec<_>>();
    for (cn, polys) in columns.iter() {
        let log = log2(n[w]) as usize;
        for rounds in 1..=log { for fl in 0..=log { for dl in 0..=log { for ll in 0..=log {
            // the claims of one test, everything else honest; claims that do not fit together only in part
            if dl + ll != log && fl + rounds != dl && ll as u32 != log2(lde) { continue }
            let odd = Sizes { degree: 1 << dl, factor: 1 << ll, rounds, finals: 1 << fl, said: 1 << fl };
            let mut sizes = [honest_sizes(bounds[0], lde, 1), honest_sizes(bounds[1], lde, 1)];
            sizes[w] = odd;
            // a domain of another size: the same table, or one that fits
            for resize in [false, true] {
            if resize && (dl + ll == log || dl + ll > log + 2 || fl + rounds != dl) { continue }
            let mut low = [Low::Fold, Low::Fold];
            if resize { low[w] = Low::Resize }
            let plan = Plan { polys: polys.clone(), composition: comp, claims: Claims::True, low, sizes, jump: [None, None], shape: None };
            let script = Some((sc.clone(), vec![1u64, 1]));
            let what = |p: Option<[usize; 2]>| format!("{} with {} rows, factor {}, {}, composition {:?}, low degree part {:?}, sizes {:?}, positions {:?}", i.name, i.props.num_rows, lde, cn, comp, low[w], sizes, p);
            let mut listen = |p: &P<F62>| -> Result<Vec<Op>, Fail> { rec(&script); accepts(ctx, &i.props, lde, p, &|| what(None))?; Ok(recorded()) };
            let a = match attack(&r, lde, &plan, &mut listen)? { Some(a) => a, None => { ctx.outcome("stopped before the openings"); continue } };
            for k in [0usize, 1, 2] {
                let at = [(1 + 2 * k * 3) % n[0], (1 + 2 * k) % n[1]];
                let s = Some((sc.clone(), vec![at[0] as u64, at[1] as u64]));
                let got = judge(ctx, &r, lde, &a.open(at), &s, &|| what(Some(at)))?;
                if got { ensure!(sizes[w].degree == bounds[w] && sizes[w].factor == lde && sizes[w].finals << sizes[w].rounds == bounds[w], "{}: accepted with sizes of its own", what(Some(at))); }
                ctx.state(&(cn, rounds, fl, dl, ll, at, resize));
            }
            }
        } } } }
    }
    Ok(())
}

fn c08(c: &mut Cases) {
    for n in [2usize, 4] { for lde in [2usize, 4] { for name in ["fibonacci", "power2", "power3"] {
        if n * lde > 8 && !c.thorough { continue }
        let i = family::<F62>(n).into_iter().find(|i| i.name == name).expect("instance");
        if Ref::new(&i.props).cdom * lde > 32 && !c.thorough { continue }
        for w in 0..2 { for comp in Composition::ALL { let i = i.clone(); c.add(format!("protocol/{}/n{}/x{}/test={}/{:?}", name, n, lde, w, comp), move |ctx| protocol(ctx, &i, lde, w, comp)); } }
    } } }
    let (md, ml, mn) = if c.thorough { (6, 4, 8) } else { (5, 4, 7) };
    for (d, l, o) in sizes(md, ml, mn) {
        c.add(format!("honest-fold/f62/{}x{}->{}", d, l, o), move |ctx| honest_fold::<F62>(ctx, d, l, o, true));
        if d * l <= 16 { c.add(format!("honest-fold/f17/{}x{}->{}", d, l, o), move |ctx| honest_fold::<F17>(ctx, d, l, o, false)); }
    }
    for ln in 2..=(if c.thorough { 5 } else { 4 }) { c.add(format!("claims/f62/2^{}", ln), move |ctx| claims::<F62>(ctx, ln)); }
}
