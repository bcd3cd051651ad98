//! The low-degree test by its definition.
use crate::open::*;
use crate::refs::*;
use ff::{Field, PrimeField};
use hodor::fri::*;
use hodor::iop::*;

/// even part + challenge * odd part, on the squares
pub fn fold<F: PrimeField>(v: &[F], c: F) -> Vec<F> {
    let n = v.len();
    let h = inv(fe::<F>(2));
    let g = root::<F>(log2(n));
    let gi = inv(g);
    let mut xi = F::one();
    (0..n / 2).map(|i| {
        let (a, b) = (v[i], v[i + n / 2]);
        let e = mul(add(a, b), h);
        let o = mul(mul(sub(a, b), h), xi);
        xi = mul(xi, gi);
        add(e, mul(c, o))
    }).collect()
}
/// value at the square from the values at x and -x
pub fn fold_at<F: PrimeField>(x: F, a: F, b: F, c: F) -> F {
    let h = inv(fe::<F>(2));
    add(mul(add(a, b), h), mul(c, mul(mul(sub(a, b), h), inv(x))))
}

pub struct Layers<F> { pub layers: Vec<Vec<F>>, pub challenges: Vec<F>, pub finals: Vec<F> }
/// folds `rounds` times; the final coefficients are those of the last layer, cut to `out`
pub fn layers<F: PrimeField>(v: &[F], rounds: usize, out: usize, challenge: impl Fn(&[F]) -> F) -> Layers<F> {
    let mut l = vec![v.to_vec()];
    let mut cs = vec![];
    for _ in 0..rounds {
        let c = challenge(l.last().unwrap());
        cs.push(c);
        let n = fold(l.last().unwrap(), c);
        l.push(n);
    }
    let mut finals = interpolate_domain(l.last().unwrap(), F::one());
    finals.truncate(out);
    Layers { layers: l, challenges: cs, finals }
}
pub fn tree_challenge<F: PrimeField>(v: &[F]) -> F { hodor::iop::blake2s_trivial_iop::Blake2sIopTree::<F>::encode_root_into_challenge(&root_of(&levels(v))) }

/// the positions opened in each layer, as (smaller, larger), and the position that continues
pub fn positions(idx: usize, n: usize, rounds: usize) -> Vec<(usize, usize, usize)> {
    let (mut i, mut m) = (idx, n);
    (0..rounds).map(|_| { let h = m / 2; let lo = i % h; let r = (lo, lo + h, i); i = lo; m = h; r }).collect()
}

/// proof of the harness' own prover: honest for the given layers
pub fn open_proof<F: PrimeField>(layers: &[Vec<F>], finals: &[F], idx: usize, deg: usize, lde: usize) -> FRIProof<F, OpenIop<F>> {
    let rounds = layers.len();
    let n = layers[0].len();
    let mut queries = vec![];
    let mut roots = vec![];
    for (l, (a, b, _)) in layers.iter().zip(positions(idx, n, rounds)) {
        let t = levels(l);
        for i in [a, b] { queries.push(Open { natural: i, tree: i, value: l[i], path: path_of(&t, i) }) }
        roots.push(root_of(&t));
    }
    FRIProof { queries, roots, final_coefficients: finals.to_vec(), initial_degree_plus_one: deg, output_coeffs_at_degree_plus_one: finals.len(), lde_factor: lde }
}
pub fn clone_proof<F: PrimeField, I: IOP<F>>(p: &FRIProof<F, I>) -> FRIProof<F, I> {
    FRIProof { queries: p.queries.clone(), roots: p.roots.clone(), final_coefficients: p.final_coefficients.clone(), initial_degree_plus_one: p.initial_degree_plus_one, output_coeffs_at_degree_plus_one: p.output_coeffs_at_degree_plus_one, lde_factor: p.lde_factor }
}

/// the definition of acceptance; `auth(round, which, position, depth)` tells whether an opening is authentic
pub fn links<F: PrimeField, I: IOP<F>>(p: &FRIProof<F, I>, idx: usize, expected: F, auth: impl Fn(usize, &I::Query, usize, usize) -> bool, challenge: impl Fn(usize) -> F) -> Result<(), &'static str> {
    let rounds = p.roots.len();
    let d = p.initial_degree_plus_one;
    if !d.is_power_of_two() || !p.lde_factor.is_power_of_two() { return Err("sizes are not powers of two") }
    let n = match d.checked_mul(p.lde_factor) { Some(n) => n, None => return Err("domain too large") };
    if n.trailing_zeros() > F::S { return Err("domain too large for the field") }
    if rounds == 0 { return Err("no rounds") }
    if p.queries.len() != 2 * rounds { return Err("number of openings") }
    if rounds >= 64 || (p.final_coefficients.len() as u128) << rounds != d as u128 { return Err("number of rounds") }
    if p.output_coeffs_at_degree_plus_one != p.final_coefficients.len() { return Err("number of final coefficients") }
    if idx >= n { return Err("position outside") }
    let pos = positions(idx, n, rounds);
    let mut carried = expected;
    let mut m = n;
    for r in 0..rounds {
        let (a, b, cont) = pos[r];
        let (qa, qb) = (&p.queries[2 * r], &p.queries[2 * r + 1]);
        for (q, i) in [(qa, a), (qb, b)] {
            if q.natural_index() != i || q.tree_index() != i { return Err("position of an opening") }
            if !auth(r, q, i, log2(m) as usize) { return Err("authentication") }
        }
        let here = if cont == a { qa.value() } else { qb.value() };
        if here != carried { return Err(if r == 0 { "first layer does not carry the expected value" } else { "folded value is not the next layer's" }) }
        let x = pw(root::<F>(log2(m)), a as u64);
        carried = fold_at(x, qa.value(), qb.value(), challenge(r));
        m /= 2;
    }
    let last = pw(root::<F>(log2(m)), pos[rounds - 1].0 as u64);
    if eval(&p.final_coefficients, last) != carried { return Err("final polynomial") }
    Ok(())
}
pub fn links_open<F: PrimeField>(p: &FRIProof<F, OpenIop<F>>, idx: usize, expected: F) -> Result<(), &'static str> {
    links(p, idx, expected, |r, q, i, depth| path_ok(&p.roots[r], &q.value, &q.path, i, depth), |r| hodor::iop::blake2s_trivial_iop::Blake2sIopTree::<F>::encode_root_into_challenge(&p.roots[r]))
}
pub fn links_plain<F: PrimeField>(p: &FRIProof<F, PlainIop<F>>, idx: usize, expected: F) -> Result<(), &'static str> {
    links(p, idx, expected, |r, q, i, _| p.roots[r].get(i) == Some(num(&q.value)), |r| <PlainIop<F> as IOP<F>>::encode_root_into_challenge(&p.roots[r]))
}
/// sizes for which folding is possible
pub fn sizes(max_deg: u32, max_lde: u32, max_n: u32) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for d in 1..=max_deg { for l in 1..=max_lde { if d + l <= max_n { for o in 0..d { v.push((1usize << d, 1usize << l, 1usize << o)) } } } }
    v
}
