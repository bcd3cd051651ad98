//! Instances, and the protocol by its definition.
use crate::open::*;
use crate::refs::*;
use ff::{Field, PrimeField};
use hodor::air::*;
use hodor::arp::*;
use hodor::fri::*;
use hodor::iop::*;
use hodor::prover::*;
use hodor::verifier::*;
use crate::field::F62;
#[cfg(hodor_verif_query)]
use hodor::iop::blake2s_trivial_iop::TrivialBlake2sIOP;
use mcrt::engine::*;
use mcrt::sched::Order;
use std::marker::PhantomData;

pub type Pr<F, T, I> = Prover<F, T, I, FRIProofPrototype<F, I>, FRIProof<F, I>, NaiveFriIop<F, I>, PerRegisterARP>;
pub type Ve<F, T, I> = Verifier<F, T, I, FRIProofPrototype<F, I>, FRIProof<F, I>, NaiveFriIop<F, I>, PerRegisterARP>;
pub type Proof<F, T, I> = InstanceProof<F, T, I, FRIProofPrototype<F, I>, FRIProof<F, I>, NaiveFriIop<F, I>, PerRegisterARP>;
pub type Props<F> = InstanceProperties<F>;

// -------------------------------------------------------------------------------- construction

pub fn reg(r: usize) -> Register { Register::Register(r) }
/// coeff * r(t+step)^power
pub fn ut<F: PrimeField>(coeff: F, r: usize, step: usize, power: u64) -> UnivariateTerm<F> { UnivariateTerm { coeff, register: reg(r), steps_difference: StepDifference::Steps(step), power } }
pub fn uni<F: PrimeField>(coeff: F, r: usize, step: usize, power: u64) -> ConstraintTerm<F> { ConstraintTerm::Univariate(ut(coeff, r, step, power)) }
/// coeff * product of r(t+step)^power
pub fn prod<F: PrimeField>(coeff: F, l: &[(usize, usize, u64)]) -> ConstraintTerm<F> {
    ConstraintTerm::Polyvariate(PolyvariateTerm { coeff, terms: l.iter().map(|(r, s, p)| ut(F::one(), *r, *s, *p)).collect(), total_degree: l.iter().map(|x| x.2).sum() })
}
pub fn degree_of<F: PrimeField>(t: &ConstraintTerm<F>) -> u64 { match t { ConstraintTerm::Univariate(u) => u.power, ConstraintTerm::Polyvariate(p) => p.terms.iter().map(|u| u.power).sum() } }
pub fn con<F: PrimeField>(constant: F, terms: Vec<ConstraintTerm<F>>, start_at: usize, span: usize) -> Constraint<F> {
    let degree = terms.iter().map(degree_of).max().unwrap_or(0);
    Constraint { constant_term: constant, terms, degree, density: ConstraintDensity::Dense(DenseConstraint { start_at, span }) }
}
pub fn bound<F: PrimeField>(r: usize, row: usize, v: F) -> BoundaryConstraint<F> { BoundaryConstraint { register: reg(r), at_row: row, value: Some(v) } }

#[derive(Clone)]
pub struct Inst<F: PrimeField> { pub name: String, pub props: Props<F>, pub witness: Vec<Vec<F>> }
impl<F: PrimeField> Inst<F> {
    pub fn new(name: impl Into<String>, constraints: Vec<Constraint<F>>, witness: Vec<Vec<F>>, rows: &[(usize, usize)]) -> Self {
        let n = witness[0].len();
        let boundary_constraints = rows.iter().filter(|x| x.1 < n).map(|(r, t)| bound(*r, *t, witness[*r][*t])).collect();
        Inst { name: name.into(), props: InstanceProperties { num_rows: n, num_registers: witness.len(), constraints, boundary_constraints }, witness }
    }
    pub fn cfactor(&self) -> usize { cfactor(&self.props) }
    /// the recorded finding D1 concerns this run
    pub fn d1(&self, cpus: usize, lde: usize) -> bool { crate::d1(cpus, lde) || crate::d1(cpus, self.cfactor()) }
}
/// size of the constraints domain relative to the column
pub fn cfactor<F: PrimeField>(p: &Props<F>) -> usize { p.constraints.iter().map(|c| c.degree).max().unwrap_or(0).max(1).next_power_of_two() as usize }

fn m1<F: PrimeField>() -> F { neg(F::one()) }

/// instances with `n` rows, all satisfied; every one has something the others have not
pub fn family<F: PrimeField>(n: usize) -> Vec<Inst<F>> {
    let f = |v: u64| fe::<F>(v);
    let one = F::one();
    let mut v: Vec<Inst<F>> = vec![];
    let last = n - 1;
    // x' = x^k + c, of degree k
    for k in [1u64, 2, 3, 4, 5, 6, 8, 9, 16, 17] {
        if k > 9 && !(n <= 5 || n == 9) { continue }
        let mut x = vec![f(k + 2)];
        for i in 1..n { let y = add(pw(x[i - 1], k), f(3)); x.push(y) }
        v.push(Inst::new(format!("power{}", k), vec![con(neg(f(3)), vec![uni(one, 0, 1, 1), uni(m1(), 0, 0, k)], 0, 1)], vec![x], &[(0, 0), (0, last)]));
    }
    // Fibonacci
    {
        let (mut a, mut b) = (vec![f(1)], vec![f(1)]);
        for i in 1..n { let (x, y) = (b[i - 1], add(a[i - 1], b[i - 1])); a.push(x); b.push(y) }
        v.push(Inst::new("fibonacci", vec![con(F::zero(), vec![uni(one, 0, 1, 1), uni(m1(), 1, 0, 1)], 0, 1), con(F::zero(), vec![uni(one, 1, 1, 1), uni(m1(), 1, 0, 1), uni(m1(), 0, 0, 1)], 0, 1)],
            vec![a, b], &[(0, 0), (1, 0), (1, last)]));
    }
    // products of several registers, generic coefficients
    {
        let (mut a, mut b, mut c) = (vec![f(2)], vec![f(3)], vec![f(5)]);
        for i in 1..n {
            let (x, y, z) = (a[i - 1], b[i - 1], c[i - 1]);
            a.push(add(mul(mul(x, y), f(7)), z));
            b.push(mul(mul(x, y), z));
            c.push(sub(mul(mul(z, z), y), f(11)));
        }
        v.push(Inst::new("products", vec![
            con(F::zero(), vec![uni(one, 0, 1, 1), prod(neg(f(7)), &[(0, 0, 1), (1, 0, 1)]), uni(m1(), 2, 0, 1)], 0, 1),
            con(F::zero(), vec![prod(one, &[(0, 0, 1), (1, 0, 1), (2, 0, 1)]), uni(m1(), 1, 1, 1)], 0, 1),
            con(f(22), vec![uni(f(2), 2, 1, 1), prod(neg(f(2)), &[(2, 0, 2), (1, 0, 1)])], 0, 1)],
            vec![a, b, c], &[(2, last), (0, 0), (1, 0), (2, 0)]));
    }
    // a step of two rows, and of three
    if n >= 3 {
        let mut x = vec![f(2), f(3)];
        for i in 2..n { let y = add(mul(x[i - 1], x[i - 2]), one); x.push(y) }
        v.push(Inst::new("two steps", vec![con(one, vec![prod(one, &[(0, 1, 1), (0, 0, 1)]), uni(m1(), 0, 2, 1)], 0, 2)], vec![x], &[(0, 0), (0, 1), (0, last)]));
    }
    if n >= 4 {
        let mut x = vec![f(2), f(3), f(4)];
        for i in 3..n { let y = add(mul(x[i - 1], x[i - 3]), x[i - 2]); x.push(y) }
        v.push(Inst::new("three steps", vec![con(F::zero(), vec![prod(m1(), &[(0, 2, 1), (0, 0, 1)]), uni(m1(), 0, 1, 1), uni(one, 0, 3, 1)], 0, 3)], vec![x], &[(0, last)]));
    }
    // active later than the first row
    for s in [1usize, 2] { if n > s + 1 {
        let mut x = seq::<F>(n, 77 + s as u64);
        for i in s + 1..n { x[i] = add(mul(x[i - 1], x[i - 1]), f(5)) }
        v.push(Inst::new(format!("starts at {}", s), vec![con(f(5), vec![uni(one, 0, 0, 2), uni(m1(), 0, 1, 1)], s, 1)], vec![x], &[(0, last)]));
    } }
    // only the last rows
    if n >= 4 {
        let mut x = seq::<F>(n, 79);
        x[n - 1] = add(pw(x[n - 2], 3), f(5));
        v.push(Inst::new("last step only", vec![con(f(5), vec![uni(one, 0, 0, 3), uni(m1(), 0, 1, 1)], n - 2, 1)], vec![x.clone()], &[(0, 0), (0, 1)]));
        // only the first row, linked to the last
        let mut x = seq::<F>(n, 80);
        x[n - 1] = mul(x[0], x[0]);
        v.push(Inst::new("first to last", vec![con(F::zero(), vec![uni(one, 0, 0, 2), uni(m1(), 0, n - 1, 1)], 0, n - 1)], vec![x], &[(0, n / 2)]));
    }
    // different degrees, starts and spans together
    if n >= 4 {
        let mut a = vec![f(3)];
        for i in 1..n { let y = add(a[i - 1], f(2)); a.push(y) }
        let mut b = seq::<F>(n, 81);
        for i in 2..n { b[i] = mul(b[i - 1], b[i - 1]) }
        let mut c = seq::<F>(n, 82);
        for i in 2..n { c[i] = add(mul(mul(c[i - 1], c[i - 2]), a[i - 2]), b[i]) }
        let d: Vec<F> = (0..n).map(|i| mul(pw(a[i], 4), b[i])).collect();
        v.push(Inst::new("mixture", vec![
            con(neg(f(2)), vec![uni(one, 0, 1, 1), uni(m1(), 0, 0, 1)], 0, 1),
            con(F::zero(), vec![uni(one, 1, 1, 1), uni(m1(), 1, 0, 2)], 1, 1),
            con(F::zero(), vec![prod(one, &[(2, 1, 1), (2, 0, 1), (0, 0, 1)]), uni(one, 1, 2, 1), uni(m1(), 2, 2, 1)], 0, 2),
            con(F::zero(), vec![prod(one, &[(0, 0, 4), (1, 0, 1)]), uni(m1(), 3, 0, 1)], 0, 0),
            con(neg(f(2)), vec![uni(one, 0, 1, 1), uni(m1(), 0, 0, 1)], 1, 2),
            con(neg(f(4)), vec![uni(one, 0, 2, 1), uni(m1(), 0, 0, 1)], 0, 2)],
            vec![a, b, c, d], &[(3, last), (0, 0), (1, 1), (0, last), (2, 1)]));
    }
    // nothing but boundary constraints, nothing but transitions
    v.push(Inst::new("no transitions", vec![], vec![seq(n, 83), seq(n, 84)], &[(0, 0), (1, last), (0, last)]));
    v.push(Inst::new("one cell", vec![], vec![seq(n, 85)], &[(0, n / 2)]));
    {
        let mut x = vec![f(3)];
        for i in 1..n { let y = mul(x[i - 1], x[i - 1]); x.push(y) }
        v.push(Inst::new("no boundary", vec![con(F::zero(), vec![uni(one, 0, 1, 1), uni(m1(), 0, 0, 2)], 0, 1)], vec![x], &[]));
    }
    // constant and zero columns
    v.push(Inst::new("constant", vec![con(F::zero(), vec![uni(one, 0, 1, 1), uni(m1(), 0, 0, 1)], 0, 1)], vec![vec![f(9); n]], &[(0, 0), (0, last)]));
    v.push(Inst::new("zero", vec![con(F::zero(), vec![uni(one, 0, 1, 3), uni(one, 0, 0, 1)], 0, 1)], vec![vec![F::zero(); n]], &[(0, last)]));
    // every row on its own, and only the next row
    v.push(Inst::new("bits", vec![con(F::zero(), vec![uni(one, 0, 0, 2), uni(m1(), 0, 0, 1)], 0, 1), con(F::zero(), vec![uni(m1(), 1, 1, 1), uni(one, 1, 1, 2)], 0, 1)],
        vec![(0..n).map(|i| f((i % 3 == 1) as u64)).collect(), (0..n).map(|i| f((i % 2) as u64)).collect()], &[(0, 0)]));
    v.push(Inst::new("next row only", vec![con(neg(f(4)), vec![uni(one, 0, 1, 2)], 0, 1)], vec![(0..n).map(|i| if i % 2 == 1 { f(2) } else { neg(f(2)) }).collect()], &[]));
    // a register nobody mentions, one with boundary constraints only
    v.push(Inst::new("unused", vec![con(f(6), vec![uni(m1(), 1, 0, 1), uni(one, 1, 1, 1)], 0, 1)],
        vec![seq(n, 86), (0..n).map(|i| sub(f(1000), mul(f(6), f(i as u64)))).collect(), seq(n, 87)], &[(2, last), (2, 0)]));
    // every cell fixed, and some twice
    {
        let x = seq::<F>(n, 88);
        let mut rows: Vec<(usize, usize)> = (0..n).map(|t| (0, t)).collect();
        rows.push((0, 0));
        v.push(Inst::new("all fixed", vec![], vec![x], &rows));
    }
    // constraints that are there twice, without terms, constant, or that cover nothing
    {
        let mut x = vec![f(3)];
        for i in 1..n { let y = add(mul(x[i - 1], x[i - 1]), one); x.push(y) }
        let c = con(one, vec![uni(one, 0, 0, 2), uni(m1(), 0, 1, 1)], 0, 1);
        v.push(Inst::new("twice", vec![c.clone(), c.clone()], vec![x.clone()], &[(0, 0), (0, 0), (0, last)]));
        v.push(Inst::new("no terms", vec![con(F::zero(), vec![], 0, 1), c.clone()], vec![x.clone()], &[(0, 0)]));
        v.push(Inst::new("constant terms", vec![con(neg(f(12)), vec![prod(f(5), &[]), uni(f(7), 0, 0, 0)], 0, 1), c.clone()], vec![x.clone()], &[(0, 0)]));
        v.push(Inst::new("nothing but constants", vec![con(neg(f(5)), vec![prod(f(5), &[])], 0, 1)], vec![x.clone()], &[]));
        v.push(Inst::new("covers nothing", vec![con(one, vec![uni(one, 0, 0, 2)], n - 1, 1), c.clone(), con(f(3), vec![], n + 3, 1), con(one, vec![uni(one, 0, 1, 1)], 0, n), con(one, vec![uni(one, 0, 0, 1)], 2, n + 7)], vec![x.clone()], &[(0, last)]));
    }
    // the same factor several times in a product, in one step and in two
    {
        let mut x = vec![f(3)];
        let mut y = vec![f(4)];
        for i in 1..n { let (a, b) = (x[i - 1], y[i - 1]); x.push(add(mul(a, a), f(2))); y.push(mul(mul(mul(a, a), a), b)) }
        v.push(Inst::new("repeated factors", vec![
            con(f(2), vec![prod(one, &[(0, 0, 1), (0, 0, 1)]), uni(m1(), 0, 1, 1)], 0, 1),
            con(F::zero(), vec![prod(one, &[(0, 0, 1), (1, 0, 1), (0, 0, 2)]), uni(m1(), 1, 1, 1)], 0, 1)], vec![x, y], &[(0, 0), (1, last)]));
    }
    // equal terms, terms that cancel, coefficients that are zero, registers that occur with such only
    {
        let mut x = vec![f(5)];
        for i in 1..n { let y = add(add(x[i - 1], x[i - 1]), one); x.push(y) }
        let z = seq::<F>(n, 90);
        v.push(Inst::new("equal terms", vec![con(one, vec![uni(one, 0, 0, 1), uni(m1(), 0, 1, 1), uni(one, 0, 0, 1)], 0, 1), con(one, vec![uni(one, 0, 0, 1), uni(f(7), 1, 0, 3), uni(m1(), 0, 1, 1), uni(one, 0, 0, 1), uni(neg(f(7)), 1, 0, 3)], 0, 1)],
            vec![x.clone(), z.clone()], &[(0, last), (1, 0)]));
        v.push(Inst::new("zero coefficients", vec![con(one, vec![uni(f(2), 0, 0, 1), uni(m1(), 0, 1, 1), uni(F::zero(), 1, 0, 3), prod(F::zero(), &[(1, 1, 1), (0, 0, 1)])], 0, 1)], vec![x, z], &[(0, 0)]));
    }
    // products of many factors
    if n >= 3 {
        let mut cols: Vec<Vec<F>> = (0..5).map(|r| seq::<F>(n, 91 + r)).collect();
        for i in 1..n { let y = mul(mul(mul(cols[0][i - 1], cols[1][i]), mul(cols[2][i - 1], cols[3][i])), cols[4][i - 1]); cols[4][i] = add(y, cols[3][i - 1]) }
        v.push(Inst::new("five factors", vec![con(F::zero(), vec![uni(m1(), 4, 1, 1), prod(one, &[(0, 0, 1), (1, 1, 1), (2, 0, 1), (3, 1, 1), (4, 0, 1)]), uni(one, 3, 0, 1)], 0, 1)], cols, &[(4, last), (0, 0)]));
    }
    // every row but the first, every second step; a start far into the trace
    if n >= 6 {
        let mut x = seq::<F>(n, 97);
        for i in n / 2 + 1..n { x[i] = add(mul(x[i - 1], x[i - 1]), f(8)) }
        v.push(Inst::new("second half", vec![con(f(8), vec![uni(one, 0, 0, 2), uni(m1(), 0, 1, 1)], n / 2, 1)], vec![x], &[(0, n / 2), (0, n / 2 - 1)]));
        let mut x = seq::<F>(n, 98);
        let s = n / 2;
        for i in s..n { x[i] = add(mul(x[i - s], x[i - s]), x[i - s]) }
        v.push(Inst::new("half the trace apart", vec![con(F::zero(), vec![uni(one, 0, 0, 2), uni(one, 0, 0, 1), uni(m1(), 0, s, 1)], 0, s)], vec![x], &[(0, s)]));
    }
    // many boundary constraints on two registers, in no order
    {
        let (x, y) = (seq::<F>(n, 99), seq::<F>(n, 100));
        let mut rows = vec![(1usize, last), (0, last)];
        for t in 0..n.min(9) { rows.push((t % 2, n - 1 - t)); rows.push((0, t)) }
        v.push(Inst::new("many boundaries", vec![], vec![x, y], &rows));
    }
    // many registers
    for w in [9usize, 17] {
        let cols: Vec<Vec<F>> = (0..w).map(|r| { let mut x = vec![f(r as u64 + 2)]; for i in 1..n { let y = mul(x[i - 1], f(r as u64 + 1)); x.push(y) } x }).collect();
        let cs = (0..w).map(|r| con(F::zero(), vec![uni(one, r, 1, 1), uni(neg(f(r as u64 + 1)), r, 0, 1)], 0, 1)).collect();
        v.push(Inst::new(format!("{} registers", w), cs, cols, &[(0, 0), (w - 1, last)]));
    }
    v
}

/// statements with many of something: registers, constraints, terms, factors, steps, boundary constraints, powers
pub fn wide<F: PrimeField>(n: usize) -> Vec<Inst<F>> {
    let f = |v: u64| fe::<F>(v);
    let one = F::one();
    let mut v: Vec<Inst<F>> = vec![];
    let last = n - 1;
    // registers, every one with a boundary constraint, some linked to far away ones
    for w in [33usize, 66, 130, 258] {
        let mut cols: Vec<Vec<F>> = (0..w - 1).map(|r| { let mut x = vec![f(r as u64 + 2)]; for i in 1..n { let y = add(x[i - 1], f(r as u64 + 1)); x.push(y) } x }).collect();
        cols.push((0..n).map(|t| mul(cols[0][t], cols[w - 2][t])).collect());
        let mut cs: Vec<Constraint<F>> = (0..w - 1).map(|r| con(neg(f(r as u64 + 1)), vec![uni(one, r, 1, 1), uni(m1(), r, 0, 1)], 0, 1)).collect();
        cs.push(con(F::zero(), vec![prod(one, &[(0, 0, 1), (w - 2, 0, 1)]), uni(m1(), w - 1, 0, 1)], 0, 0));
        let bs: Vec<(usize, usize)> = (0..w).rev().map(|r| (r, if r % 2 == 0 { 0 } else { last })).collect();
        v.push(Inst::new(format!("{} registers", w), cs, cols, &bs));
    }
    // constraints, of degrees 1 to 5 and many densities
    for k in [34usize, 130, 260] {
        let (mut x, mut y) = (vec![f(3)], vec![f(4)]);
        for i in 1..n { let (a, b) = (x[i - 1], y[i - 1]); x.push(add(mul(a, a), f(3))); y.push(mul(a, b)) }
        let cs = (0..k).map(|j| {
            let (m, d, s) = (f(j as u64 + 1), j % 4, (j / 4) % 3);
            match j % 3 {
                0 => con(mul(m, f(3)), vec![uni(m, 0, 0, 2), uni(neg(m), 0, 1, 1)], s.min(last), 1),
                1 => con(F::zero(), vec![prod(m, &[(0, 0, 1), (1, 0, 1)]), uni(neg(m), 1, 1, 1)], 0, 1 + d % 2),
                _ => con(F::zero(), vec![prod(m, &[(0, 0, d as u64 + 1), (1, 0, 1), (0, 0, 1)]), prod(neg(m), &[(0, 0, d as u64 + 1), (1, 1, 1)])], s.min(last), 1 + d / 2),
            }
        }).collect();
        v.push(Inst::new(format!("{} constraints", k), cs, vec![x, y], &[(0, 0), (1, last)]));
    }
    // terms: x' = sum of c_j x^(j mod 4) y^(j mod 3)
    for k in [40usize, 140] {
        let (mut x, y) = (vec![f(3)], seq::<F>(n, 201));
        for i in 1..n { let mut s = F::zero(); for j in 0..k { s = add(s, mul(f(j as u64 + 1), mul(pw(x[i - 1], (j % 4) as u64), pw(y[i - 1], (j % 3) as u64)))) } x.push(s) }
        let mut ts: Vec<ConstraintTerm<F>> = (0..k).map(|j| prod(f(j as u64 + 1), &[(0, 0, (j % 4) as u64), (1, 0, (j % 3) as u64)])).collect();
        ts.insert(k / 2, uni(m1(), 0, 1, 1));
        v.push(Inst::new(format!("{} terms", k), vec![con(F::zero(), ts, 0, 1)], vec![x, y], &[(0, 0), (0, last)]));
    }
    // factors
    for k in [9usize, 20] {
        let mut cols: Vec<Vec<F>> = (0..7).map(|r| seq::<F>(n, 210 + r)).collect();
        let fs: Vec<(usize, usize, u64)> = (0..k).map(|j| (j % 6, (j / 6) % 2, 1)).collect();
        for i in 1..n { let mut y = one; for (r, s, _) in fs.iter() { y = mul(y, cols[*r][i - 1 + s]) } cols[6][i] = y }
        v.push(Inst::new(format!("{} factors", k), vec![con(F::zero(), vec![prod(m1(), &fs), uni(one, 6, 1, 1)], 0, 1)], cols, &[(6, last)]));
    }
    // all steps of a register
    {
        let x = seq::<F>(n, 220);
        let mut s = F::zero();
        for (t, y) in x.iter().enumerate() { s = add(s, mul(f(t as u64 + 1), *y)) }
        v.push(Inst::new("all steps", vec![con(neg(s), (0..n).rev().map(|t| uni(f(t as u64 + 1), 0, t, 1)).collect(), 0, last)], vec![x], &[(0, 0)]));
    }
    // boundary constraints
    {
        let (x, y) = (seq::<F>(n, 221), seq::<F>(n, 222));
        v.push(Inst::new("150 boundaries", vec![con(F::zero(), vec![uni(F::zero(), 0, 0, 3)], 0, 1)], vec![x, y], &(0..150).map(|j| ((j * 7) % 3 % 2, (j * 5 + j / 9) % n)).collect::<Vec<_>>()));
    }
    // many powers of one register and step, alone and in products
    for top in [20u64, 36, 68, 260] { if n > match top { 20 => 9, 36 => 5, 68 => 3, _ => 2 } { continue }
        let ps: Vec<u64> = (0..=20).chain(31..=36).chain(63..=68).chain(127..=130).chain(255..=260).filter(|p| *p <= top).collect();
        let (mut x, y) = (vec![f(3)], seq::<F>(n, 223));
        let coeff = |p: u64| match p % 4 { 1 => one, 2 => m1(), _ => f(p + 2) };
        for i in 1..n {
            let mut s = F::zero();
            for p in ps.iter() { let t = mul(coeff(*p), pw(x[i - 1], *p)); s = add(s, if p % 5 == 4 { mul(t, y[i]) } else { t }) }
            x.push(s);
        }
        let mut ts: Vec<ConstraintTerm<F>> = ps.iter().map(|p| if p % 5 == 4 { prod(coeff(*p), &[(1, 1, 1), (0, 0, *p)]) } else { uni(coeff(*p), 0, 0, *p) }).collect();
        ts.insert(ts.len() / 3, uni(m1(), 0, 1, 1));
        v.push(Inst::new(format!("powers up to {}", top), vec![con(F::zero(), ts, 0, 1)], vec![x, y], &[(0, 0), (0, last)]));
    }
    // powers
    if n <= 3 { for k in [32u64, 33, 64, 65, 255, 256, 257] {
        let mut x = vec![f(k + 2)];
        for i in 1..n { let y = add(pw(x[i - 1], k), f(3)); x.push(y) }
        v.push(Inst::new(format!("power{}", k), vec![con(neg(f(3)), vec![uni(one, 0, 1, 1), uni(m1(), 0, 0, k)], 0, 1)], vec![x], &[(0, 0), (0, last)]));
    } }
    v
}

// ----------------------------------------------------------------------------------- reference

pub struct Ref<F: PrimeField> {
    pub props: Props<F>,
    /// rows of the padded column
    pub t: usize,
    pub g: F,
    pub max: u64,
    /// size of the constraints domain
    pub cdom: usize,
    /// (register, step modulo the padded column), in the order in which they are first mentioned
    pub masks: Vec<(usize, usize)>,
    /// constraints in the order in which challenges are drawn for them
    pub order: Vec<usize>,
}

pub fn num_of(r: &Register) -> usize { match r { Register::Register(i) => *i, _ => panic!("reference: register kind") } }
pub fn step_of<F: PrimeField>(s: &StepDifference<F>) -> usize { match s { StepDifference::Steps(i) => *i, _ => panic!("reference: mask") } }
pub fn dense(d: &ConstraintDensity) -> (usize, usize) { match d { ConstraintDensity::Dense(d) => (d.start_at, d.span), _ => panic!("reference: density") } }

impl<F: PrimeField> Ref<F> {
    pub fn new(props: &Props<F>) -> Self {
        let t = props.num_rows.next_power_of_two();
        let max = props.constraints.iter().map(|c| c.degree).max().unwrap_or(0).max(1);
        let mut masks = vec![];
        let mut note = |r: usize, s: usize| { let m = (r, s % t); if !masks.contains(&m) { masks.push(m) } };
        for c in props.constraints.iter() { for t in c.terms.iter() { match t {
            ConstraintTerm::Univariate(u) => note(num_of(&u.register), step_of(&u.steps_difference)),
            ConstraintTerm::Polyvariate(p) => for u in p.terms.iter() { note(num_of(&u.register), step_of(&u.steps_difference)) },
        } } }
        for b in props.boundary_constraints.iter() { note(num_of(&b.register), 0) }
        let mut order: Vec<usize> = vec![];
        for i in 0..props.constraints.len() { if order.contains(&i) { continue } for j in i..props.constraints.len() { if props.constraints[j].density == props.constraints[i].density { order.push(j) } } }
        Ref { props: props.clone(), t, g: root::<F>(log2(t)), max, cdom: t * max.next_power_of_two() as usize, masks, order }
    }
    /// number of scalar challenges before z
    pub fn pairs(&self) -> usize { self.props.constraints.len() + self.props.boundary_constraints.len() }

    pub fn value(c: &Constraint<F>, get: &dyn Fn(usize, usize) -> Option<F>) -> Option<F> {
        let one = |u: &UnivariateTerm<F>| -> Option<F> { Some(mul(u.coeff, pw(get(num_of(&u.register), step_of(&u.steps_difference))?, u.power))) };
        let mut s = c.constant_term;
        for t in c.terms.iter() {
            let x = match t {
                ConstraintTerm::Univariate(u) => one(u)?,
                ConstraintTerm::Polyvariate(p) => { let mut x = p.coeff; for u in p.terms.iter() { x = mul(x, one(u)?) } x }
            };
            s = add(s, x);
        }
        Some(s)
    }
    /// None if something refers outside the trace
    pub fn satisfied(&self, w: &[Vec<F>]) -> Option<bool> {
        let p = &self.props;
        let n = p.num_rows;
        let mut ok = true;
        for c in p.constraints.iter() {
            let (start, span) = dense(&c.density);
            for row in start..n.saturating_sub(span) {
                let v = Self::value(c, &|r, s| w.get(r)?.get(row + s).copied())?;
                if !v.is_zero() { ok = false }
            }
        }
        for b in p.boundary_constraints.iter() {
            let v = w.get(num_of(&b.register))?.get(b.at_row).copied()?;
            if let Some(x) = b.value { if x != v { ok = false } }
        }
        Some(ok)
    }
    /// coefficients of the register polynomials
    pub fn polys(&self, w: &[Vec<F>]) -> Vec<Vec<F>> { w.iter().map(|c| { let mut c = c.clone(); c.resize(self.t, F::zero()); interpolate_domain(&c, F::one()) }).collect() }

    /// rows that a constraint does not cover
    pub fn excluded(&self, c: &Constraint<F>) -> Vec<usize> {
        let (start, span) = dense(&c.density);
        let last = self.props.num_rows.saturating_sub(span);
        if start >= last { return (0..self.t).collect() }
        (0..start.min(self.t)).chain(last.min(self.t)..self.t).collect()
    }
    /// the composition at `x`, from values of the registers there; None where it is not defined
    pub fn g_at(&self, x: F, ch: &[(F, F)], get: &dyn Fn(usize, usize) -> F) -> Option<F> {
        let p = &self.props;
        let weight = |deg: u64, (a, b): (F, F)| if self.max == deg { a } else { add(mul(a, pw(x, self.max - deg)), b) };
        let van = sub(pw(x, self.t as u64), F::one());
        let mut s = F::zero();
        for (k, i) in self.order.iter().enumerate() {
            let c = &p.constraints[*i];
            let mut v = Self::value(c, &|r, st| Some(get(r, st % self.t)))?;
            v = mul(v, weight(c.degree, ch[k]));
            for r in self.excluded(c) { v = mul(v, sub(x, pw(self.g, r as u64))) }
            v = mul(v, van.inverse()?);
            s = add(s, v);
        }
        for (k, b) in p.boundary_constraints.iter().enumerate() {
            let v = sub(get(num_of(&b.register), 0), b.value?);
            let d = sub(x, pw(self.g, b.at_row as u64)).inverse()?;
            s = add(s, mul(mul(v, weight(1, ch[p.constraints.len() + k])), d));
        }
        Some(s)
    }
    pub fn g_of_polys(&self, x: F, ch: &[(F, F)], polys: &[Vec<F>]) -> Option<F> { self.g_at(x, ch, &|r, s| eval(&polys[r], mul(x, pw(self.g, s as u64)))) }
    /// the polynomial of degree below the constraints domain that agrees with the composition on its coset
    pub fn g_poly(&self, ch: &[(F, F)], polys: &[Vec<F>]) -> Vec<F> {
        let s = F::multiplicative_generator();
        // values of the registers on the whole coset at once; a step is a rotation
        let (m, k) = (self.cdom, self.cdom / self.t);
        let on: Vec<Vec<F>> = polys.iter().map(|p| eval_all(p, m, s)).collect();
        let v: Vec<F> = domain::<F>(m).iter().enumerate().map(|(i, x)| self.g_at(mul(s, *x), ch, &|r, st| on[r][(i + k * st) % m]).expect("reference: the coset is outside the column domain")).collect();
        interpolate_domain(&v, s)
    }
    /// the same from single evaluations
    pub fn g_poly_plainly(&self, ch: &[(F, F)], polys: &[Vec<F>]) -> Vec<F> {
        let s = F::multiplicative_generator();
        let v: Vec<F> = domain::<F>(self.cdom).iter().map(|x| self.g_of_polys(mul(s, *x), ch, polys).expect("reference: the coset is outside the column domain")).collect();
        interpolate_domain(&v, s)
    }
    pub fn mask_point(&self, m: &(usize, usize), z: F) -> F { mul(z, pw(self.g, m.1 as u64)) }
    pub fn f_at_z_m(&self, polys: &[Vec<F>], z: F) -> Vec<F> { self.masks.iter().map(|m| eval(&polys[m.0], self.mask_point(m, z))).collect() }
    pub fn h1_at(&self, x: F, z: F, claimed: &[F], alphas: &[F], f: &dyn Fn(usize) -> F) -> Option<F> {
        let mut s = F::zero();
        for (i, m) in self.masks.iter().enumerate() {
            let d = sub(x, self.mask_point(m, z)).inverse()?;
            s = add(s, mul(mul(sub(f(m.0), claimed[i]), d), alphas[i]));
        }
        Some(s)
    }
    pub fn g_from_claims(&self, z: F, ch: &[(F, F)], claimed: &[F]) -> Option<F> {
        self.g_at(z, ch, &|r, s| claimed[self.masks.iter().position(|m| *m == (r, s)).expect("reference: mask")])
    }
}

/// the draws that a record contains
pub fn draws<F: PrimeField>(log: &[Op]) -> (Vec<F>, Vec<Vec<u8>>) {
    (log.iter().filter_map(|o| if let Op::Draw(b) = o { Some(from_be::<F>(b)) } else { None }).collect(), log.iter().filter_map(|o| if let Op::DrawBytes(b) = o { Some(b.clone()) } else { None }).collect())
}
/// position for a challenge string, by its definition
pub fn position(b: &[u8], size: usize, factor: usize) -> usize {
    let v = u64::from_be_bytes(b[b.len() - 8..].try_into().unwrap()) as usize % size;
    if v % 2 == 1 { return v }
    let _ = factor;
    (v + 1) % size
}

/// the definition of acceptance of a whole proof, with the challenges that were drawn
pub fn definition<F: PrimeField, T: hodor::transcript::Transcript<F>>(r: &Ref<F>, lde: usize, p: &Proof<F, T, OpenIop<F>>, log: &[Op]) -> Result<(), String> {
    let (sc, by) = draws::<F>(log);
    let e = |s: &str| Err(s.to_string());
    if p.f_at_z_m.len() != r.masks.len() { return e("number of claimed values") }
    if p.f_queries.len() != r.props.num_registers || p.f_iop_roots.len() != r.props.num_registers { return e("number of registers") }
    if p.h1_iop_roots != p.fri_proof_h1.roots || p.h2_iop_roots != p.fri_proof_h2.roots { return e("roots of the low degree proofs") }
    for (q, d) in [(&p.fri_proof_h1, r.t), (&p.fri_proof_h2, r.cdom)] { if q.initial_degree_plus_one != d || q.lde_factor != lde { return e("claimed degree") } }
    let (n1, n2) = (r.t * lde, r.cdom * lde);
    let k = r.pairs();
    if sc.len() != 2 * k + 1 + r.masks.len() || by.len() != 2 { return Err(format!("{} scalars and {} positions drawn", sc.len(), by.len())) }
    let ch: Vec<(F, F)> = (0..k).map(|i| (sc[2 * i], sc[2 * i + 1])).collect();
    let z = sc[2 * k];
    let alphas = &sc[2 * k + 1..];
    let (i1, i2) = (position(&by[0], n1, lde), position(&by[1], n2, lde));
    for (q, root) in p.f_queries.iter().zip(p.f_iop_roots.iter()) {
        if q.natural != i1 || q.tree != i1 || !path_ok(root, &q.value, &q.path, i1, log2(n1) as usize) { return e("opening of a register") }
    }
    let q = &p.g_query;
    if q.natural != i2 || q.tree != i2 || !path_ok(&p.g_iop_root, &q.value, &q.path, i2, log2(n2) as usize) { return e("opening of the composition") }
    let x1 = pw(root::<F>(log2(n1)), i1 as u64);
    let h1 = match r.h1_at(x1, z, &p.f_at_z_m, alphas, &|i| p.f_queries[i].value) { Some(v) => v, None => return e("z is a point of the domain") };
    let gz = match r.g_from_claims(z, &ch, &p.f_at_z_m) { Some(v) => v, None => return e("z is a point of the domain") };
    let x2 = pw(root::<F>(log2(n2)), i2 as u64);
    let d = match sub(x2, z).inverse() { Some(v) => v, None => return e("z is a point of the domain") };
    let h2 = mul(sub(q.value, gz), d);
    crate::fri::links_open(&p.fri_proof_h1, i1, h1).map_err(|m| format!("h1: {}", m))?;
    crate::fri::links_open(&p.fri_proof_h2, i2, h2).map_err(|m| format!("h2: {}", m))?;
    Ok(())
}

pub fn copy<F: PrimeField, T: hodor::transcript::Transcript<F>, I: IOP<F>>(p: &Proof<F, T, I>) -> Proof<F, T, I> {
    InstanceProof {
        f_at_z_m: p.f_at_z_m.clone(), f_iop_roots: p.f_iop_roots.clone(), g_iop_root: p.g_iop_root.clone(), f_queries: p.f_queries.clone(), g_query: p.g_query.clone(),
        h1_iop_roots: p.h1_iop_roots.clone(), h2_iop_roots: p.h2_iop_roots.clone(), fri_proof_h1: crate::fri::clone_proof(&p.fri_proof_h1), fri_proof_h2: crate::fri::clone_proof(&p.fri_proof_h2),
        _marker_a: PhantomData, _marker_t: PhantomData, _marker_p: PhantomData, _marker_fri: PhantomData,
    }
}

// -------------------------------------------------------------------------- provers that deviate

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Composition { Honest, Zero, Random, Rational }
impl Composition { pub const ALL: [Composition; 4] = [Composition::Honest, Composition::Zero, Composition::Random, Composition::Rational]; }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Claims { True, Zero, FirstWrong, LastWrong, FitComposition }
impl Claims { pub const ALL: [Claims; 5] = [Claims::True, Claims::Zero, Claims::FirstWrong, Claims::LastWrong, Claims::FitComposition]; }
/// how the low degree proof is made for a table: folded as it is, with every layer replaced by something of low degree that agrees on the first odd points, zero,
/// folded as a table on the domain of the claimed sizes: the first values of it, or it and zeros; or something of the claimed degree on that domain that starts with the table
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Low { Fold, Interpolate, Zero, Resize, Stretch }
impl Low { pub const ALL: [Low; 3] = [Low::Fold, Low::Interpolate, Low::Zero]; }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sizes { pub degree: usize, pub factor: usize, pub rounds: usize, pub finals: usize, pub said: usize }
pub fn honest_sizes(degree: usize, factor: usize, out: usize) -> Sizes { Sizes { degree, factor, rounds: (log2(degree) - log2(out)) as usize, finals: out, said: out } }

pub struct Plan<F: PrimeField> { pub polys: Vec<Vec<F>>, pub composition: Composition, pub claims: Claims, pub low: [Low; 2], pub sizes: [Sizes; 2], /// from this layer on everything is zero (the layer after the last one is the final polynomial)
    pub jump: [Option<usize>; 2], /// register (or, after the last one, the composition), shape of its tree, position
    pub shape: Option<(usize, usize, usize)> }

/// a table of low degree that agrees with `v` at odd positions as far as the degree allows
fn low_degree<F: PrimeField>(v: &[F], degree: usize) -> Vec<F> {
    let n = v.len();
    let g = domain::<F>(n);
    // odd positions spread evenly: a coset of a subgroup
    let step = (n / degree).max(1);
    let pts: Vec<usize> = (0..degree.min(n)).map(|i| (1 + i * step) % n).collect();
    let c = lagrange(&pts.iter().map(|i| g[*i]).collect::<Vec<_>>(), &pts.iter().map(|i| v[*i]).collect::<Vec<_>>());
    eval_all(&c, n, F::one())
}

/// a proof with everything but its openings, and what is behind its commitments
pub struct Attack<F: PrimeField> { proof: Proof<F, Rec<F>, OpenIop<F>>, n1: usize, n2: usize, f: Vec<(Vec<F>, Vec<Vec<H>>)>, g: (Vec<F>, Vec<Vec<H>>), layers: Vec<Vec<(Vec<F>, Vec<Vec<H>>)>>, pub drawn: Vec<Vec<u8>>, odd: Option<(usize, usize, Vec<H>)> }
impl<F: PrimeField> Attack<F> {
    fn size(&self, w: usize) -> usize { self.layers[w].first().map_or([self.n1, self.n2][w], |l| l.0.len()) }
    /// opened at these positions
    pub fn open(&self, at: [usize; 2]) -> Proof<F, Rec<F>, OpenIop<F>> {
        let mut p = copy(&self.proof);
        let o = |t: &(Vec<F>, Vec<Vec<H>>), i: usize| Open { natural: i, tree: i, value: t.0[i], path: path_of(&t.1, i) };
        for (i, q) in p.f_queries.iter_mut().enumerate() { *q = o(&self.f[i], at[0]) }
        p.g_query = o(&self.g, at[1]);
        if let Some((k, tree, path)) = &self.odd { let q = if *k < p.f_queries.len() { &mut p.f_queries[*k] } else { &mut p.g_query }; q.tree = *tree; q.path = path.clone(); }
        for w in 0..2 {
            let mut queries = vec![];
            for (l, (a, b, _)) in self.layers[w].iter().zip(crate::fri::positions(at[w], self.size(w), self.layers[w].len())) { for i in [a, b] { queries.push(o(l, i)) } }
            if w == 0 { p.fri_proof_h1.queries = queries } else { p.fri_proof_h2.queries = queries }
        }
        p
    }
    /// the partner of the value that continues is not the committed one in this layer, but such that the step leads to zero
    pub fn forge_layer(&self, at: [usize; 2], w: usize, k: usize) -> Option<Proof<F, Rec<F>, OpenIop<F>>> {
        let mut p = self.open(at);
        let (a, b, cont) = crate::fri::positions(at[w], self.size(w), self.layers[w].len())[k];
        let t = &self.layers[w][k].0;
        let (x, c) = (pw(root::<F>(log2(t.len())), a as u64), crate::fri::tree_challenge(t));
        let with = |v: F| if cont == a { crate::fri::fold_at(x, t[a], v, c) } else { crate::fri::fold_at(x, v, t[b], c) };
        let (f0, f1) = (with(F::zero()), with(F::one()));
        let v = mul(neg(f0), sub(f1, f0).inverse()?);
        if with(v) != F::zero() { return None }
        let q = if w == 0 { &mut p.fri_proof_h1 } else { &mut p.fri_proof_h2 };
        q.queries[2 * k + if cont == a { 1 } else { 0 }].value = v;
        Some(p)
    }
    /// the value of the composition is not the committed one, but such that the second quotient is zero
    pub fn forge_g(&self, at: [usize; 2], gz: F) -> Proof<F, Rec<F>, OpenIop<F>> { let mut p = self.open(at); p.g_query.value = gz; p }
    /// the value of a register is not the committed one, but such that the first quotient is zero; `h1` is that quotient
    pub fn forge_f(&self, at: [usize; 2], reg: usize, h1: &dyn Fn(&[F]) -> Option<F>) -> Option<Proof<F, Rec<F>, OpenIop<F>>> {
        let mut p = self.open(at);
        let mut v: Vec<F> = p.f_queries.iter().map(|q| q.value).collect();
        v[reg] = F::zero();
        let f0 = h1(&v)?;
        v[reg] = F::one();
        let d = sub(h1(&v)?, f0);
        v[reg] = mul(neg(f0), d.inverse()?);
        p.f_queries[reg].value = v[reg];
        Some(p)
    }
}

/// builds the proof that this plan leads to; challenges are learned by letting the verifier look at unfinished proofs
pub fn attack<F: PrimeField, E>(r: &Ref<F>, lde: usize, plan: &Plan<F>, listen: &mut dyn FnMut(&Proof<F, Rec<F>, OpenIop<F>>) -> Result<Vec<Op>, E>) -> Result<Option<Attack<F>>, E> {
    let (n1, n2) = (r.t * lde, r.cdom * lde);
    let k = r.pairs();
    let f_tables: Vec<Vec<F>> = plan.polys.iter().map(|c| eval_all(c, n1, F::one())).collect();
    let f_trees: Vec<Vec<Vec<H>>> = f_tables.iter().map(|t| levels(t)).collect();
    let blank = |n: usize| Open { natural: 0, tree: 0, value: F::zero(), path: vec![[0; 32]; log2(n) as usize] };
    let fri = |s: &Sizes| FRIProof::<F, OpenIop<F>> { queries: vec![], roots: vec![[0; 32]; s.rounds], final_coefficients: vec![F::zero(); s.finals], initial_degree_plus_one: s.degree, output_coeffs_at_degree_plus_one: s.said, lde_factor: s.factor };
    let mut p: Proof<F, Rec<F>, OpenIop<F>> = InstanceProof {
        f_at_z_m: vec![F::zero(); r.masks.len()], f_iop_roots: f_trees.iter().map(|t| root_of(t)).collect(), g_iop_root: [0; 32], f_queries: f_trees.iter().map(|_| blank(n1)).collect(), g_query: blank(n2),
        h1_iop_roots: vec![[0; 32]; plan.sizes[0].rounds], h2_iop_roots: vec![[0; 32]; plan.sizes[1].rounds], fri_proof_h1: fri(&plan.sizes[0]), fri_proof_h2: fri(&plan.sizes[1]),
        _marker_a: PhantomData, _marker_t: PhantomData, _marker_p: PhantomData, _marker_fri: PhantomData,
    };
    let mut odd = None;
    if let Some((q, shape, at)) = plan.shape { if q < f_tables.len() { match shaped(&f_tables[q], &f_trees[q], shape, at) { Some((root, i, path)) => { p.f_iop_roots[q] = root; odd = Some((q, i, path)) } None => return Ok(None) } } }
    let sc = draws::<F>(&listen(&p)?).0;
    if sc.len() < 2 * k { return Ok(None) }
    let ch: Vec<(F, F)> = (0..k).map(|i| (sc[2 * i], sc[2 * i + 1])).collect();
    // composition
    let g_poly: Option<Vec<F>> = match plan.composition { Composition::Honest => Some(r.g_poly(&ch, &plan.polys)), Composition::Zero => Some(vec![]), Composition::Random => Some(seq(r.cdom, 4711)), Composition::Rational => None };
    let g_table: Vec<F> = match &g_poly { Some(c) => eval_all(c, n2, F::one()), None => domain::<F>(n2).into_iter().map(|x| r.g_of_polys(x, &ch, &plan.polys).unwrap_or(F::zero())).collect() };
    let g_tree = levels(&g_table);
    p.g_iop_root = root_of(&g_tree);
    if let Some((q, shape, at)) = plan.shape { if q == f_tables.len() { match shaped(&g_table, &g_tree, shape, at) { Some((root, i, path)) => { p.g_iop_root = root; odd = Some((q, i, path)) } None => return Ok(None) } } }
    let sc = draws::<F>(&listen(&p)?).0;
    if sc.len() <= 2 * k { return Ok(None) }
    let z = sc[2 * k];
    // claims
    let mut claims = r.f_at_z_m(&plan.polys, z);
    match plan.claims {
        Claims::True => {}
        Claims::Zero => for c in claims.iter_mut() { *c = F::zero() },
        Claims::FirstWrong => match claims.first_mut() { Some(c) => c.add_assign(&F::one()), None => return Ok(None) },
        Claims::LastWrong => match claims.last_mut() { Some(c) => c.add_assign(&F::one()), None => return Ok(None) },
        Claims::FitComposition => {
            // one claim moved so that the committed composition fits at z
            let want = match &g_poly { Some(c) => eval(c, z), None => return Ok(None) };
            let mut done = false;
            for i in 0..claims.len() {
                let at = |d: F| { let mut c = claims.clone(); c[i] = add(c[i], d); r.g_from_claims(z, &ch, &c) };
                if let (Some(a), Some(b)) = (at(F::zero()), at(F::one())) {
                    if let Some(s) = sub(b, a).inverse() {
                        let d = mul(sub(want, a), s);
                        if at(d) == Some(want) { claims[i] = add(claims[i], d); done = true; break }
                    }
                }
            }
            if !done { return Ok(None) }
        }
    }
    p.f_at_z_m = claims.clone();
    let sc = draws::<F>(&listen(&p)?).0;
    if sc.len() < 2 * k + 1 + r.masks.len() { return Ok(None) }
    let alphas = &sc[2 * k + 1..2 * k + 1 + r.masks.len()];
    // the two quotients
    let gz = match r.g_from_claims(z, &ch, &claims) { Some(v) => v, None => return Ok(None) };
    let mut h = [Vec::with_capacity(n1), Vec::with_capacity(n2)];
    for (i, x) in domain::<F>(n1).into_iter().enumerate() { match r.h1_at(x, z, &claims, alphas, &|q| f_tables[q][i]) { Some(v) => h[0].push(v), None => return Ok(None) } }
    for (i, x) in domain::<F>(n2).into_iter().enumerate() { match sub(x, z).inverse() { Some(d) => h[1].push(mul(sub(g_table[i], gz), d)), None => return Ok(None) } }
    // low degree proofs
    let mut layers: Vec<Vec<Vec<F>>> = vec![];
    for w in 0..2 {
        let s = &plan.sizes[w];
        let bound = [r.t, r.cdom][w];
        let first = match plan.low[w] { Low::Fold => h[w].clone(), Low::Interpolate => low_degree(&h[w], bound), Low::Zero => vec![F::zero(); h[w].len()], Low::Resize => { let mut t = h[w].clone(); t.resize(s.degree * s.factor, F::zero()); t }
            Low::Stretch => { let m = s.degree.min(h[w].len()); let g = domain::<F>(s.degree * s.factor); let c = lagrange(&g[..m], &h[w][..m]); eval_all(&c, g.len(), F::one()) } };
        let mut l = vec![first];
        for _ in 0..s.rounds { if l.last().unwrap().len() < 2 { return Ok(None) } let c = crate::fri::tree_challenge(l.last().unwrap()); let mut x = crate::fri::fold(l.last().unwrap(), c); if plan.jump[w] == Some(l.len()) { for v in x.iter_mut() { *v = F::zero() } } l.push(x) }
        let mut fin = interpolate_domain(l.last().unwrap(), F::one());
        fin.resize(s.finals, F::zero());
        l.truncate(s.rounds);
        let q = if w == 0 { &mut p.fri_proof_h1 } else { &mut p.fri_proof_h2 };
        q.final_coefficients = fin;
        q.roots = l.iter().map(|x| if x.len() > 1 { root_of(&levels(x)) } else { leaf(&x[0]) }).collect();
        layers.push(l);
    }
    p.h1_iop_roots = p.fri_proof_h1.roots.clone();
    p.h2_iop_roots = p.fri_proof_h2.roots.clone();
    let by = draws::<F>(&listen(&p)?).1;
    if by.len() < 2 { return Ok(None) }
    let layers = layers.into_iter().map(|l| l.into_iter().map(|x| { let t = if x.len() > 1 { levels(&x) } else { vec![vec![leaf(&x[0])]] }; (x, t) }).collect()).collect();
    Ok(Some(Attack { proof: p, n1, n2, f: f_tables.into_iter().zip(f_trees).collect(), g: (g_table, g_tree), layers, drawn: by, odd }))
}

// -------------------------------------------------------------------------------- the verifier

pub type P<F> = Proof<F, Rec<F>, OpenIop<F>>;

pub fn verify<F: PrimeField, T: hodor::transcript::Transcript<F>, I: IOP<F>>(props: &Props<F>, lde: usize, proof: &Proof<F, T, I>) -> Result<Result<bool, String>, String> {
    quiet(|| crate::on(1, Order::Fifo, |_| {
        let v = Ve::<F, T, I>::new(props.clone(), lde).map_err(|e| format!("{:?}", e))?;
        v.verify(proof).map_err(|e| format!("{:?}", e))
    }))
}
/// Some(verdict), None for an error
pub fn accepts<F: PrimeField, T: hodor::transcript::Transcript<F>, I: IOP<F>>(ctx: &mut Ctx, props: &Props<F>, lde: usize, p: &Proof<F, T, I>, what: &dyn Fn() -> String) -> Result<bool, Fail> {
    ctx.step(1);
    match verify::<F, T, I>(props, lde, p) {
        Err(m) => Err(format!("{}: the verifier crashes: {}", what(), m).into()),
        Ok(v) => { let v = v == Ok(true); ctx.outcome(if v { "accepted" } else { "not accepted" }); Ok(v) }
    }
}
pub fn rec(script: &Option<(Vec<u64>, Vec<u64>)>) { match script { None => record(None, None), Some((a, b)) => record(Some(a.clone()), Some(b.clone())) } }
pub fn script_for(r: &Ref<F62>, salt: u64, p1: u64, p2: u64) -> Option<(Vec<u64>, Vec<u64>)> { Some((seq::<F62>(2 * r.pairs() + 1 + r.masks.len(), 1000 + salt).iter().map(|x| x.val()).collect(), vec![p1, p2])) }
/// the same proof with the openings of the code under test, where they can express it
#[cfg(hodor_verif_query)]
pub fn real_openings<F: PrimeField>(p: &P<F>) -> Option<Proof<F, Rec<F>, TrivialBlake2sIOP<F>>> {
    use hodor::iop::blake2s_trivial_iop::TrivialBlake2sIopQuery as Q;
    let one = |q: &Open<F>| if q.natural == q.tree { Some(Q::<F>::verif_from_parts(q.tree, q.value, q.path.clone())) } else { None };
    let all = |v: &[Open<F>]| v.iter().map(|q| one(q)).collect::<Option<Vec<_>>>();
    let low = |f: &FRIProof<F, OpenIop<F>>| Some(FRIProof { queries: all(&f.queries)?, roots: f.roots.clone(), final_coefficients: f.final_coefficients.clone(), initial_degree_plus_one: f.initial_degree_plus_one, output_coeffs_at_degree_plus_one: f.output_coeffs_at_degree_plus_one, lde_factor: f.lde_factor });
    Some(InstanceProof {
        f_at_z_m: p.f_at_z_m.clone(), f_iop_roots: p.f_iop_roots.clone(), g_iop_root: p.g_iop_root.clone(), f_queries: all(&p.f_queries)?, g_query: one(&p.g_query)?,
        h1_iop_roots: p.h1_iop_roots.clone(), h2_iop_roots: p.h2_iop_roots.clone(), fri_proof_h1: low(&p.fri_proof_h1)?, fri_proof_h2: low(&p.fri_proof_h2)?,
        _marker_a: PhantomData, _marker_t: PhantomData, _marker_p: PhantomData, _marker_fri: PhantomData,
    })
}
/// the verdict of the code under test on its own kind of openings has to be the same
#[cfg(hodor_verif_query)]
pub fn really<F: PrimeField>(ctx: &mut Ctx, props: &Props<F>, lde: usize, p: &P<F>, want: bool, what: &dyn Fn() -> String) -> R {
    if let Some(q) = real_openings(p) {
        let got = accepts(ctx, props, lde, &q, what)?;
        if got != want { return Err(format!("{}: with the openings of the code: accepted: {}, should be {}", what(), got, want).into()) }
    }
    Ok(())
}
#[cfg(not(hodor_verif_query))]
pub fn really<F: PrimeField>(_: &mut Ctx, _: &Props<F>, _: usize, _: &P<F>, _: bool, _: &dyn Fn() -> String) -> R { Ok(()) }
/// judges a proof object with challenges given by `script`: the code has to agree with the definition
pub fn judge(ctx: &mut Ctx, r: &Ref<F62>, lde: usize, p: &P<F62>, script: &Option<(Vec<u64>, Vec<u64>)>, what: &dyn Fn() -> String) -> Result<bool, Fail> {
    rec(script);
    let got = accepts(ctx, &r.props, lde, p, what)?;
    let log = recorded();
    let def = definition(r, lde, p, &log);
    match (got, &def) {
        (true, Err(e)) => Err(format!("{}: accepted although: {}", what(), e).into()),
        (false, Ok(())) => Err(format!("{}: not accepted although the definition holds", what()).into()),
        _ => { rec(script); really(ctx, &r.props, lde, p, def.is_ok(), what)?; ctx.trace(); if let Err(e) = def { ctx.outcome(&format!("rejected: {}", if e.ends_with("drawn") { "early" } else { &e })) } Ok(got) }
    }
}
