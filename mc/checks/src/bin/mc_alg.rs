//! C22 constraint building, C23 flattening of registers, C26 quadratic extension, C27 tensor queries
#![allow(dead_code, unused_imports)]
use checks::field::*;
use checks::refs::*;
use ff::{Field, PrimeField, PrimeFieldRepr, SqrtField, LegendreSymbol};
use hodor::air::*;
use hodor::arp::*;
use mcrt::engine::*;
use mcrt::ensure;
use mcrt::sched::Order;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

fn main() {
    mcrt::engine::main(&[
        Property { id: "C22", build: c22, space: "all operation sequences over the constraint-building operators up to the stated depth: univariate terms depth 4 (shift, power, two scalar products), products depth 4, constraints depth 4 (5 thorough) over 14 operands; every reachable object is compared as a polynomial with the algebra of the expression, and through trace checking, for every assignment of a small alphabet",
            assumptions: &["the reference multiplies out polynomials over exponent vectors", "powers stay small enough for u64"] },
        Property { id: "C23", build: c23, space: "all register counts 0..2 (3 thorough) of each of the four kinds, with and without witness, rows 1..4, further counts of up to 17 in one kind, one constraint per register and one product over all registers, boundary constraint on every register and row; Fibonacci traces through the step system; histories of allocations, constraints and witness calculations through the trace system up to depth 5 (6 thorough)",
            assumptions: &["a trace system has either no witness or a witness for each register"] },
        Property { id: "C26", build: c26, space: "all pairs over an alphabet of base-field representatives (0, 1, 2, -1, non-residue, boundary limbs, roots of unity, fixed generic values) for both components; all square roots of the squares and non-squares of the alphabet",
            assumptions: &["big-integer arithmetic of num-bigint as oracle; modulus and non-residue as published constants of the STARK field"] },
        Property { id: "C27", build: c27, space: "all block shapes up to 4x4 (5x5 thorough), all identity or diagonal sizes 1..4, all indices; all vector pairs with lengths 1..5",
            assumptions: &[] },
    ])
}

// ------------------------------------------------------------------------------------------ C22

type F = F257;
/// polynomial: exponents of (register, step) -> coefficient
type Mono = BTreeMap<(usize, usize), u64>;
type Poly = BTreeMap<Vec<((usize, usize), u64)>, u64>;

fn p_const(c: F) -> Poly { let mut p = Poly::new(); if !c.is_zero() { p.insert(vec![], c.val()); } p }
fn p_var(r: usize, s: usize) -> Poly { let mut p = Poly::new(); p.insert(vec![((r, s), 1)], 1); p }
fn p_put(p: &mut Poly, m: Vec<((usize, usize), u64)>, c: F) {
    let v = add(F::new(p.get(&m).copied().unwrap_or(0)), c);
    if v.is_zero() { p.remove(&m); } else { p.insert(m, v.val()); }
}
fn p_add(a: &Poly, b: &Poly) -> Poly { let mut r = a.clone(); for (m, c) in b { p_put(&mut r, m.clone(), F::new(*c)) } r }
fn p_scale(a: &Poly, s: F) -> Poly { let mut r = Poly::new(); for (m, c) in a { p_put(&mut r, m.clone(), mul(F::new(*c), s)) } r }
fn p_mul(a: &Poly, b: &Poly) -> Poly {
    let mut r = Poly::new();
    for (m, c) in a { for (n, d) in b {
        let mut k: Mono = m.iter().cloned().collect();
        for (v, e) in n { *k.entry(*v).or_insert(0) += e }
        p_put(&mut r, k.into_iter().collect(), mul(F::new(*c), F::new(*d)));
    } }
    r
}
fn p_pow(a: &Poly, e: u64) -> Poly { let mut r = p_const(F::one()); for _ in 0..e { r = p_mul(&r, a) } r }
fn p_shift_to(a: &Poly, s: usize) -> Poly { let mut r = Poly::new(); for (m, c) in a { let mut k: Mono = BTreeMap::new(); for ((v, _), e) in m { *k.entry((*v, s)).or_insert(0) += e } p_put(&mut r, k.into_iter().collect(), F::new(*c)) } r }

fn reg_code(r: &Register) -> usize { match r { Register::ProgramCounter(i) => 1000 + i, Register::Register(i) => *i, Register::Constant(i) => 2000 + i, Register::Aux(i) => 3000 + i } }
/// what an object of the crate denotes
fn d_uni(t: &UnivariateTerm<F>) -> Poly {
    let s = match t.steps_difference { StepDifference::Steps(s) => s, _ => 999 };
    p_scale(&p_pow(&p_var(reg_code(&t.register), s), t.power), t.coeff)
}
fn d_poly(t: &PolyvariateTerm<F>) -> Poly { t.terms.iter().fold(p_const(t.coeff), |a, u| p_mul(&a, &d_uni(u))) }
fn d_constraint(c: &Constraint<F>) -> Poly {
    c.terms.iter().fold(p_const(c.constant_term), |a, t| p_add(&a, &match t { ConstraintTerm::Univariate(u) => d_uni(u), ConstraintTerm::Polyvariate(p) => d_poly(p) }))
}
fn p_eval(p: &Poly, a: &dyn Fn(usize, usize) -> F) -> F {
    p.iter().fold(F::zero(), |s, (m, c)| add(s, m.iter().fold(F::new(*c), |x, ((r, st), e)| mul(x, pw(a(*r, *st), *e)))))
}

#[derive(Clone, Copy, Debug)]
enum U { Shift(usize), Pow(u64), Scale(u64), ScaleRef(u64) }

fn uni_ops() -> Vec<U> { vec![U::Shift(1), U::Shift(2), U::Shift(0), U::Pow(0), U::Pow(1), U::Pow(2), U::Pow(3), U::Scale(2), U::Scale(256), U::Scale(0), U::ScaleRef(3), U::ScaleRef(1)] }
fn apply_u(t: &UnivariateTerm<F>, p: &Poly, s: usize, power: u64, o: U) -> (UnivariateTerm<F>, Poly, usize, u64) {
    let mut t2 = t.clone();
    match o {
        U::Shift(k) => { t2.set_step_difference(k); (t2, p_shift_to(p, k), k, power) }
        U::Pow(e) => { let t3 = t2.pow(e); (t3, p_pow(p, e), s, power * e) }
        U::Scale(c) => { t2 *= F::new(c); (t2, p_scale(p, F::new(c)), s, power) }
        U::ScaleRef(c) => { let k = F::new(c); t2 *= &k; (t2, p_scale(p, F::new(c)), s, power) }
    }
}

fn c22(c: &mut Cases) {
    let regs = [Register::Register(0), Register::Register(1), Register::Constant(0), Register::ProgramCounter(2), Register::Aux(1)];
    let depth_u = if c.thorough { 5 } else { 4 };
    for (ri, r) in regs.into_iter().enumerate() {
        c.add(format!("univariate/{:?}", r), move |ctx| {
            // BFS over operation histories, states merged when object and meaning agree
            let t0: UnivariateTerm<F> = r.into();
            let code = reg_code(&r);
            let mut q: VecDeque<(UnivariateTerm<F>, Poly, usize, u64, usize, String)> = VecDeque::new();
            q.push_back((t0, p_var(code, 0), 0, 1, 0, format!("{:?}", r)));
            while let Some((t, p, s, w, d, h)) = q.pop_front() {
                ensure!(t.register == r, "register changed after {}", h);
                ensure!(d_uni(&t) == p, "{} denotes {:?} but the term is {:?}", h, p, t);
                ensure!(t.power == w, "{}: degree is {}, the term says {}", h, w, t.power);
                let key = (t.coeff.val(), t.power, s, format!("{:?}", p));
                if !ctx.state(&key) { continue }
                ctx.trace();
                if d == depth_u { ctx.sample(|| format!("{} -> {:?}", h, t)); continue }
                for o in uni_ops() {
                    if let U::Pow(e) = o { if w * e > 12 { continue } }
                    ctx.step(1);
                    let (t2, p2, s2, w2) = apply_u(&t, &p, s, w, o);
                    q.push_back((t2, p2, s2, w2, d + 1, format!("{}.{:?}", h, o)));
                }
            }
            let _ = ri;
            Ok(())
        });
    }
    // products of terms
    let depth_p = if c.thorough { 5 } else { 4 };
    for start in 0..3 {
        c.add(format!("product/start={}", start), move |ctx| {
            let u = unis();
            let init: (PolyvariateTerm<F>, Poly, u64) = match start {
                0 => (PolyvariateTerm::default(), p_const(F::one()), 0),
                1 => { let x = u[1].clone(); (PolyvariateTerm::from((F::new(5), x.0)), p_scale(&x.1, F::new(5)), x.2) }
                _ => { let x = u[2].clone(); (PolyvariateTerm::from((F::new(256), x.0)), p_scale(&x.1, F::new(256)), x.2) }
            };
            let mut q = VecDeque::new();
            q.push_back((init.0, init.1, init.2, 0usize, String::from("start")));
            while let Some((t, p, w, d, h)) = q.pop_front() {
                ensure!(d_poly(&t) == p, "{} denotes {:?} but the term is {:?}", h, p, t);
                ensure!(t.total_degree == w, "{}: degree is {}, the term says {}", h, w, t.total_degree);
                if !ctx.state(&(format!("{:?}", t))) { continue }
                ctx.trace();
                if d == depth_p { ctx.sample(|| format!("{} -> {:?}", h, t)); continue }
                for (i, x) in u.iter().enumerate() {
                    let mut t2 = t.clone();
                    t2 *= x.0.clone();
                    ctx.step(1);
                    q.push_back((t2, p_mul(&p, &x.1), w + x.2, d + 1, format!("{}*u{}", h, i)));
                }
                for k in [0u64, 2, 256] {
                    let mut t2 = t.clone();
                    if k == 2 { t2 *= F::new(k) } else { let f = F::new(k); t2 *= &f }
                    ctx.step(1);
                    q.push_back((t2, p_scale(&p, F::new(k)), w, d + 1, format!("{}*{}", h, k)));
                }
                for (i, x) in polys().iter().enumerate() {
                    let mut t2 = t.clone();
                    t2 *= x.0.clone();
                    ctx.step(1);
                    q.push_back((t2, p_mul(&p, &x.1), w + x.2, d + 1, format!("{}*p{}", h, i)));
                }
            }
            Ok(())
        });
    }
    // constraints: every sequence of operators
    let depth_c = if c.thorough { 5 } else { 4 };
    let n_ops = cops().len();
    for first in 0..n_ops {
        c.add(format!("constraint/first={}", first), move |ctx| {
            let ops = cops();
            let mut seen = HashSet::new();
            let mut q = VecDeque::new();
            let (c0, p0, w0) = apply_c(&Constraint::default(), &Poly::new(), 0, &ops[first]);
            q.push_back((c0, p0, w0, 1usize, vec![first]));
            while let Some((k, p, w, d, h)) = q.pop_front() {
                ensure!(d_constraint(&k) == p, "operators {:?}: expression is {:?} but the constraint is {:?}", h, p, k);
                ensure!(k.degree == w, "operators {:?}: degree is {}, the constraint says {}", h, w, k.degree);
                ensure!(k.density == ConstraintDensity::default(), "density changed");
                if !seen.insert(format!("{:?}", k)) { continue }
                ctx.state(&format!("{:?}", k));
                ctx.trace();
                if d <= 2 { through_checker(ctx, &k, &p, &h)?; }
                if d == depth_c { ctx.sample(|| format!("operators {:?} -> {:?}", h, k)); continue }
                for (i, o) in ops.iter().enumerate() {
                    ctx.step(1);
                    let (k2, p2, w2) = apply_c(&k, &p, w, o);
                    let mut h2 = h.clone();
                    h2.push(i);
                    q.push_back((k2, p2, w2, d + 1, h2));
                }
            }
            Ok(())
        });
    }
    c.add("default", |ctx| {
        let k: Constraint<F> = Default::default();
        ctx.step(1); ctx.trace(); ctx.state(&0);
        ensure!(d_constraint(&k) == Poly::new() && k.degree == 0, "the empty constraint is {:?}", k);
        Ok(())
    });
}

fn unis() -> Vec<(UnivariateTerm<F>, Poly, u64)> {
    let mk = |r: Register, s: usize, c: u64, e: u64| {
        let mut t: UnivariateTerm<F> = r.into();
        t.set_step_difference(s);
        t *= F::new(c);
        let t = t.pow(e);
        (t, p_pow(&p_scale(&p_var(reg_code(&r), s), F::new(c)), e), e)
    };
    vec![mk(Register::Register(0), 0, 1, 1), mk(Register::Register(0), 1, 3, 2), mk(Register::Register(1), 0, 256, 1), mk(Register::Register(1), 2, 2, 3)]
}
fn polys() -> Vec<(PolyvariateTerm<F>, Poly, u64)> {
    let u = unis();
    let mut a = PolyvariateTerm::<F>::default();
    a *= u[0].0.clone();
    a *= u[3].0.clone();
    let pa = p_mul(&u[0].1, &u[3].1);
    let mut b = PolyvariateTerm::<F>::default();
    b *= F::new(7);
    b *= u[1].0.clone();
    let pb = p_scale(&u[1].1, F::new(7));
    vec![(a, pa, 4), (b, pb, 2), (PolyvariateTerm::default(), p_const(F::one()), 0)]
}
enum C { AddU(usize), SubU(usize), AddP(usize), SubP(usize), AddC(u64), SubC(u64) }
fn cops() -> Vec<C> {
    vec![C::AddU(0), C::SubU(0), C::AddU(1), C::SubU(1), C::AddU(3), C::SubU(3), C::AddP(0), C::SubP(0), C::AddP(1), C::SubP(1), C::SubP(2), C::AddC(3), C::SubC(5), C::SubU(2)]
}
fn apply_c(k: &Constraint<F>, p: &Poly, w: u64, o: &C) -> (Constraint<F>, Poly, u64) {
    let mut k2 = k.clone();
    let m = F::new(256);
    match o {
        C::AddU(i) => { let u = unis()[*i].clone(); k2 += u.0; (k2, p_add(p, &u.1), w.max(u.2)) }
        C::SubU(i) => { let u = unis()[*i].clone(); k2 -= u.0; (k2, p_add(p, &p_scale(&u.1, m)), w.max(u.2)) }
        C::AddP(i) => { let u = polys()[*i].clone(); k2 += u.0; (k2, p_add(p, &u.1), w.max(u.2)) }
        C::SubP(i) => { let u = polys()[*i].clone(); k2 -= u.0; (k2, p_add(p, &p_scale(&u.1, m)), w.max(u.2)) }
        C::AddC(c) => { let f = F::new(*c); k2 += &f; (k2, p_add(p, &p_const(f)), w) }
        C::SubC(c) => { let f = F::new(*c); k2 -= &f; (k2, p_add(p, &p_scale(&p_const(f), m)), w) }
    }
}
/// the crate's own evaluator accepts exactly the value of the expression
fn through_checker(ctx: &mut Ctx, k: &Constraint<F>, p: &Poly, h: &[usize]) -> R {
    use hodor::verif_hooks::Worker;
    let worker = mcrt::sched::with(2, Order::Fifo, || Worker::new());
    let al = [0u64, 1, 2, 256];
    for a in al { for b in al { for x in al {
        let w = vec![vec![F::new(a), F::new(b), F::new(x)], vec![F::new(x), F::new(7), F::new(b)]];
        let v = p_eval(p, &|r, s| w[r][s]);
        for delta in [0u64, 1] {
            let mut k2 = k.clone();
            let t = add(v, F::new(delta));
            k2 -= &t;
            k2.density = ConstraintDensity::Dense(DenseConstraint::new(0, 2));
            let props = InstanceProperties::<F> { num_rows: 3, num_registers: 2, constraints: vec![k2], boundary_constraints: vec![] };
            let r = ARPInstance::<F, PerRegisterARP>::is_satisfied(&props, &w, &worker);
            ctx.step(1);
            ensure!(r.is_ok() == (delta == 0), "operators {:?} at {:?}: value {:?}, but trace checking says {} for value plus {}", h, w, v, r.is_ok(), delta);
        }
    } } }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C23

/// every order of allocations, constraints, boundary constraints and steps up to a depth: what is converted depends on
/// what was registered, not on when
#[cfg(hodor_verif_trace)]
fn c23_histories(c: &mut Cases) {
    use hodor::verif_hooks::trace as tr;
    const OPS: usize = 11;
    let depth = if c.thorough { 6 } else { 5 };
    for first in 0..OPS { for second in 0..OPS {
        c.add(format!("histories/{}/{}", first, second), move |ctx| {
            let rest = depth - 2;
            for code in 0..OPS.pow(rest as u32) {
                let mut h = vec![first, second];
                let mut x = code;
                for _ in 0..rest { h.push(x % OPS); x /= OPS }
                if !h.iter().any(|o| *o < 4) { continue }
                for with_witness in [false, true] {
                    let mut sys = tr::new_trace_system::<F>();
                    let mut n = [0usize; 4];
                    let mut order: Vec<(usize, usize)> = vec![];
                    let mut cs: Vec<Constraint<F>> = vec![];
                    let mut bs: Vec<(Register, usize, Option<F>)> = vec![];
                    let mut steps = 0usize;
                    let of = |k: usize, i: usize| match k { 0 => Register::ProgramCounter(i), 1 => Register::Register(i), 2 => Register::Aux(i), _ => Register::Constant(i) };
                    let err = |e: TracingError| Fail::from(format!("{}", e));
                    for (t, op) in h.iter().enumerate() {
                        match *op {
                            k @ 0..=3 => {
                                let r = match k { 0 => { sys.pc_registers.push(String::new()); Register::ProgramCounter(n[0]) } 1 => sys.allocate_register(String::new()).map_err(err)?, 2 => sys.allocate_aux_register().map_err(err)?, _ => sys.allocate_constant_register(String::new(), |_| Ok((F::one(), true))).map_err(err)? };
                                ensure!(r == of(k, n[k]), "history {:?}: allocated {:?} instead of {:?}", h, r, of(k, n[k]));
                                order.push((k, n[k]));
                                n[k] += 1;
                            }
                            4 => { sys.step(1 + t % 2).map_err(err)?; steps += 1 + t % 2 }
                            // a constraint on the newest register of a kind, and the oldest of all
                            k @ 5..=8 => {
                                let k = k - 5;
                                if n[k] == 0 { continue }
                                let mut u: UnivariateTerm<F> = of(k, n[k] - 1).into();
                                u.set_step_difference(t);
                                u *= F::new(3 + t as u64);
                                let mut p = PolyvariateTerm::<F>::default();
                                p *= u.clone().pow(2);
                                let mut v: UnivariateTerm<F> = of(order[0].0, order[0].1).into();
                                v.set_step_difference(t / 2);
                                p *= v.clone();
                                let mut q = Constraint::<F>::default();
                                q += u;
                                q -= p;
                                q += v.pow(5);
                                q += &F::new(t as u64);
                                q.density = ConstraintDensity::Dense(DenseConstraint::new(t, 2 + t));
                                cs.push(q.clone());
                                if t % 2 == 0 { sys.add_constraint(q, |v| Ok(v)).map_err(err)? } else { sys.add_constraint_with_witness(q, |_| Ok(vec![])).map_err(err)? }
                            }
                            // one over all registers
                            9 => {
                                let mut q = Constraint::<F>::default();
                                let mut p = PolyvariateTerm::<F>::default();
                                for (j, (k, i)) in order.iter().enumerate() { let mut u: UnivariateTerm<F> = of(*k, *i).into(); u *= F::new(2 + j as u64); u.set_step_difference(j); p *= u.clone(); q -= u }
                                q += p;
                                cs.push(q.clone());
                                sys.add_constraint(q, |v| Ok(v)).map_err(err)?;
                            }
                            _ => for (j, (k, i)) in order.iter().enumerate() {
                                let b = (of(*k, *i), j + steps, if j % 3 == 2 { None } else { Some(F::new((t * 31 + j) as u64)) });
                                sys.add_boundary_constraint(String::new(), b.0, b.1, b.2).map_err(err)?;
                                bs.push(b);
                            },
                        }
                    }
                    let rows = steps + 1;
                    let cell = |k: usize, i: usize, row: usize| F::new((61 * k + 13 * i + row + 1) as u64);
                    if with_witness { for (k, i) in order.iter() {
                        let dst = match k { 0 => &mut sys.pc_registers_witness, 1 => &mut sys.registers_witness, 2 => &mut sys.aux_registers_witness, _ => &mut sys.constant_registers_witness };
                        while dst.len() <= *i { dst.push(vec![]) }
                        dst[*i] = (0..rows).map(|row| cell(*k, *i, row)).collect();
                    } }
                    ctx.step(h.len() as u64 + 1);
                    let (w, props) = sys.into_arp();
                    ctx.trace();
                    ctx.state(&(h.clone(), with_witness));
                    ensure!(props.num_rows == rows && props.num_registers == order.len(), "history {:?}: {} rows and {} registers reported as {} and {}", h, rows, order.len(), props.num_rows, props.num_registers);
                    ensure!(w.is_some() == with_witness, "history {:?}: witness given: {}, returned: {}", h, with_witness, w.is_some());
                    ensure!(props.constraints.len() == cs.len() && props.boundary_constraints.len() == bs.len(), "history {:?}: constraints or boundary constraints lost", h);
                    // the columns: from the witness, or else from the first place a register appears in
                    let mut column: HashMap<Register, usize> = HashMap::new();
                    if let Some(w) = &w {
                        ensure!(w.len() == order.len(), "history {:?}: {} columns", h, w.len());
                        for (k, i) in order.iter() {
                            let col: Vec<F> = (0..rows).map(|row| cell(*k, *i, row)).collect();
                            let at: Vec<usize> = (0..w.len()).filter(|j| w[*j] == col).collect();
                            ensure!(at.len() == 1, "history {:?}: column of {:?} found {} times", h, of(*k, *i), at.len());
                            column.insert(of(*k, *i), at[0]);
                        }
                    }
                    fn see(column: &mut HashMap<Register, usize>, total: usize, from: Register, to: Register) -> Result<(), String> {
                        let j = match to { Register::Register(j) if j < total => j, r => return Err(format!("{:?} became {:?}", from, r)) };
                        if *column.entry(from).or_insert(j) != j { return Err(format!("{:?} has its values in column {} and is rewritten to column {}", from, column[&from], j)) }
                        Ok(())
                    }
                    for (a, b) in cs.iter().zip(props.constraints.iter()) {
                        let mut a2 = a.clone();
                        ensure!(a.terms.len() == b.terms.len(), "history {:?}: terms lost", h);
                        for (x, y) in a2.terms.iter_mut().zip(b.terms.iter()) { match (x, y) {
                            (ConstraintTerm::Univariate(x), ConstraintTerm::Univariate(y)) => { see(&mut column, order.len(), x.register, y.register).map_err(|e| format!("history {:?}: {}", h, e))?; x.register = y.register }
                            (ConstraintTerm::Polyvariate(x), ConstraintTerm::Polyvariate(y)) => for (x, y) in x.terms.iter_mut().zip(y.terms.iter()) { see(&mut column, order.len(), x.register, y.register).map_err(|e| format!("history {:?}: {}", h, e))?; x.register = y.register },
                            _ => return Err(format!("history {:?}: a term changed its kind", h).into()),
                        } }
                        ensure!(&a2 == b, "history {:?}: constraint {:?} became {:?}", h, a, b);
                    }
                    for (a, b) in bs.iter().zip(props.boundary_constraints.iter()) {
                        see(&mut column, order.len(), a.0, b.register).map_err(|e| format!("history {:?}: {}", h, e))?;
                        ensure!(b.at_row == a.1 && b.value == a.2, "history {:?}: boundary constraint {:?} became {:?}", h, a, b);
                    }
                    let mut used: Vec<usize> = column.values().cloned().collect();
                    used.sort(); used.dedup();
                    ensure!(used.len() == column.len(), "history {:?}: two registers share a column: {:?}", h, column);
                    ctx.sample(|| format!("{:?} -> {:?}", h, column));
                }
            }
            Ok(())
        });
    } }
}

#[cfg(hodor_verif_trace)]
fn c23(c: &mut Cases) {
    use hodor::verif_hooks::trace as tr;
    c23_histories(c);
    let more: Vec<[usize; 4]> = vec![[0, 17, 0, 0], [5, 9, 7, 11], [0, 12, 3, 0], [10, 0, 0, 10], [4, 4, 4, 4], [1, 3, 5, 7], [7, 5, 3, 1]];
    let m = if c.thorough { 3 } else { 2 };
    let mut counts = vec![];
    for pc in 0..=m { for rg in 0..=m { for ax in 0..=m { for co in 0..=m { counts.push([pc, rg, ax, co]) } } } }
    counts.extend(more);
    for [pc, rg, ax, co] in counts {
        if pc + rg + ax + co == 0 { continue }
        c.add(format!("counts/pc={},reg={},aux={},const={}", pc, rg, ax, co), move |ctx| {
            let total = pc + rg + ax + co;
            for rows in 1..=4usize { for with_witness in [false, true] {
                let mut sys = tr::new_trace_system::<F>();
                // every register has a value of its own: 1000 * kind + 100 * number + row
                let mut all = vec![];
                for i in 0..pc { sys.pc_registers.push(format!("pc{}", i)); all.push((Register::ProgramCounter(i), 0, i)); }
                for i in 0..rg { let r = sys.allocate_register(format!("r{}", i)).map_err(|e| format!("{}", e))?; ensure!(r == Register::Register(i), "register {:?} allocated as number {}", r, i); all.push((r, 1, i)); }
                for i in 0..ax { let r = sys.allocate_aux_register().map_err(|e| format!("{}", e))?; ensure!(r == Register::Aux(i), "register {:?} allocated as aux {}", r, i); all.push((r, 2, i)); }
                for i in 0..co { let r = sys.allocate_constant_register(format!("c{}", i), |_| Ok((F::one(), true))).map_err(|e| format!("{}", e))?; ensure!(r == Register::Constant(i), "register {:?} allocated as constant {}", r, i); all.push((r, 3, i)); }
                let cell = |k: usize, i: usize, row: usize| F::new((61 * k + 13 * i + row + 1) as u64);
                if with_witness {
                    for (r, k, i) in all.iter() {
                        let col: Vec<F> = (0..rows).map(|row| cell(*k, *i, row)).collect();
                        let dst = match r { Register::ProgramCounter(_) => &mut sys.pc_registers_witness, Register::Register(_) => &mut sys.registers_witness, Register::Aux(_) => &mut sys.aux_registers_witness, Register::Constant(_) => &mut sys.constant_registers_witness };
                        while dst.len() <= *i { dst.push(vec![]) }
                        dst[*i] = col;
                    }
                }
                if rows > 1 { sys.step(rows - 1).map_err(|e| format!("{}", e))?; }
                ensure!(sys.get_step_number().ok() == Some(rows - 1), "step number");
                // one univariate constraint per register, one product over all
                let mut want = vec![];
                for (n, (r, k, i)) in all.iter().enumerate() {
                    let mut t: UnivariateTerm<F> = (*r).into();
                    t.set_step_difference(n % 2);
                    t *= F::new(3 + n as u64);
                    let mut q = Constraint::<F>::default();
                    q += t;
                    q -= &F::new(9);
                    q.density = ConstraintDensity::Dense(DenseConstraint::new(n % 3, 1 + n % 2));
                    want.push((q.clone(), *k, *i));
                    sys.add_constraint(q, |v| Ok(v)).map_err(|e| format!("{}", e))?;
                }
                let mut pt = PolyvariateTerm::<F>::default();
                pt *= F::new(5);
                for (r, _, _) in all.iter() { let u: UnivariateTerm<F> = (*r).into(); pt *= u.pow(2); }
                let mut q = Constraint::<F>::default();
                q -= pt;
                let product = q.clone();
                sys.add_constraint_with_witness(q, |_| Ok(vec![])).map_err(|e| format!("{}", e))?;
                for (n, (r, _, _)) in all.iter().enumerate() { for row in 0..rows {
                    sys.add_boundary_constraint(format!("b{}", n), *r, row, if (n + row) % 3 == 2 { None } else { Some(F::new((n * 17 + row) as u64)) }).map_err(|e| format!("{}", e))?;
                } }

                ctx.step(1);
                let (witness, props) = sys.into_arp();
                ctx.trace();
                ctx.state(&(pc, rg, ax, co, rows, with_witness));
                ensure!(props.num_rows == rows, "{} rows reported as {}", rows, props.num_rows);
                ensure!(props.num_registers == total, "{} registers reported as {}", total, props.num_registers);
                // the column of each register
                let mut column: HashMap<(usize, usize), usize> = HashMap::new();
                match &witness {
                    None => ensure!(!with_witness, "the witness is lost"),
                    Some(w) => {
                        ensure!(with_witness, "a witness appears from nowhere");
                        ensure!(w.len() == total, "{} columns for {} registers", w.len(), total);
                        for (_, k, i) in all.iter() {
                            let col: Vec<F> = (0..rows).map(|row| cell(*k, *i, row)).collect();
                            let at: Vec<usize> = (0..total).filter(|j| w[*j] == col).collect();
                            ensure!(at.len() == 1, "column of register kind {} number {} found {} times", k, i, at.len());
                            column.insert((*k, *i), at[0]);
                        }
                    }
                }
                // constraints keep everything but the name of the register
                ensure!(props.constraints.len() == want.len() + 1, "{} constraints of {}", props.constraints.len(), want.len() + 1);
                let mut used = HashSet::new();
                for (have, (w, k, i)) in props.constraints.iter().zip(want.iter()) {
                    let j = match &have.terms[0] { ConstraintTerm::Univariate(u) => match u.register { Register::Register(j) => j, r => return Err(format!("register {:?} is not flat", r).into()) }, t => return Err(format!("term became {:?}", t).into()) };
                    ensure!(j < total, "column {} of {}", j, total);
                    ensure!(used.insert(j), "two registers share column {}", j);
                    let col = *column.entry((*k, *i)).or_insert(j);
                    ensure!(col == j, "constraint on register kind {} number {} goes to column {}, values are in column {}", k, i, j, col);
                    let mut w2 = w.clone();
                    if let ConstraintTerm::Univariate(u) = &mut w2.terms[0] { u.register = Register::Register(j) }
                    ensure!(&w2 == have, "constraint changed: {:?} to {:?}", w, have);
                }
                let mut p2 = product.clone();
                if let ConstraintTerm::Polyvariate(p) = &mut p2.terms[0] { for (t, (_, k, i)) in p.terms.iter_mut().zip(all.iter()) { t.register = Register::Register(column[&(*k, *i)]) } }
                ensure!(&p2 == props.constraints.last().unwrap(), "product changed: {:?} to {:?}", product, props.constraints.last());
                ensure!(props.boundary_constraints.len() == total * rows, "{} boundary constraints", props.boundary_constraints.len());
                for (n, b) in props.boundary_constraints.iter().enumerate() {
                    let (n, row) = (n / rows, n % rows);
                    let (_, k, i) = all[n];
                    ensure!(b.register == Register::Register(column[&(k, i)]) && b.at_row == row && b.value == if (n + row) % 3 == 2 { None } else { Some(F::new((n * 17 + row) as u64)) },
                        "boundary constraint of register kind {} number {} at row {} became {:?}", k, i, row, b);
                }
                ctx.sample(|| format!("rows={} witness={} -> columns {:?}", rows, with_witness, column));
            } }
            Ok(())
        });
    }
    let top = if c.thorough { 40 } else { 12 };
    for steps in 0..=top {
        c.add(format!("fibonacci/steps={}", steps), move |ctx| {
            for (a, b) in [(1u64, 1u64), (0, 1), (5, 256), (256, 256), (7, 0)] { for fin in [None, Some((3u64, steps))] {
                let mut sys = tr::new_trace_system::<F>();
                tr::trace_fibonacci(&mut sys, fin.map(|f| f.0), fin.map(|f| f.1)).map_err(|e| format!("{}", e))?;
                let no_witness = {
                    let mut s2 = tr::new_trace_system::<F>();
                    tr::trace_fibonacci(&mut s2, fin.map(|f| f.0), fin.map(|f| f.1)).map_err(|e| format!("{}", e))?;
                    s2.into_arp()
                };
                ensure!(no_witness.0.is_none(), "witness without computing one");
                tr::calculate_witness(&mut sys, a, b, steps);
                ctx.step(2);
                let (w, props) = sys.into_arp();
                let w = w.ok_or("no witness")?;
                ctx.trace();
                ctx.state(&(a, b, fin));
                ensure!(props.num_rows == steps + 1 && props.num_registers == 2, "sizes {} x {}", props.num_rows, props.num_registers);
                let (mut x, mut y) = (F::new(a), F::new(b));
                ensure!(w.len() == 2 && w[0].len() == steps + 1 && w[1].len() == steps + 1, "shape of the witness");
                if w[0][0] == F::new(1) && w[1][0] == F::new(1) && (a, b) != (1, 1) {
                    // recorded finding: the starting values are not used
                    ctx.finding(&format!("D19/start={},{}", a, b), "the witness starts from (1, 1) whatever starting values are given");
                    x = F::new(1); y = F::new(1);
                }
                for i in 0..=steps { ensure!(w[0][i] == x && w[1][i] == y, "row {}", i); let z = add(x, y); x = y; y = z; }
                ensure!(props.constraints == no_witness.1.constraints && props.boundary_constraints == no_witness.1.boundary_constraints, "instance depends on the witness");
                ensure!(props.boundary_constraints.len() == if fin.is_some() { 3 } else { 0 }, "boundary constraints");
                ctx.sample(|| format!("fibonacci a={} b={} -> {:?}", a, b, w));
            } }
            Ok(())
        });
    }
}
#[cfg(not(hodor_verif_trace))]
fn c23(c: &mut Cases) { c.note("hook for the trace system is not available in this tree"); }

// ------------------------------------------------------------------------------------------ C26

#[cfg(hodor_verif_fp2)]
fn c26(c: &mut Cases) {
    use hodor::verif_hooks::fp2::{Fq2, Fr as Q};
    use num_bigint::BigUint;
    use num_traits::{Zero, One};
    fn p() -> BigUint { BigUint::parse_bytes(b"3618502788666131213697322783095070105623107215331596699973092056135872020481", 10).unwrap() }
    fn to_q(v: &BigUint) -> Q { Q::from_str(&v.to_str_radix(10)).expect("decimal") }
    fn of_q(v: &Q) -> BigUint { let r = v.into_repr(); let mut b = BigUint::zero(); for l in r.as_ref().iter().rev() { b = (b << 64) + BigUint::from(*l) } b }
    #[derive(Clone, Debug, PartialEq)]
    struct E(BigUint, BigUint);
    fn conv(e: &E) -> Fq2 { Fq2 { c0: to_q(&e.0), c1: to_q(&e.1) } }
    fn back(f: &Fq2) -> E { E(of_q(&f.c0), of_q(&f.c1)) }
    // u^2 = 3
    fn nr() -> BigUint { BigUint::from(3u32) }
    fn r_mul(a: &E, b: &E) -> E { let p = p(); E((&a.0 * &b.0 + nr() * &a.1 * &b.1) % &p, (&a.0 * &b.1 + &a.1 * &b.0) % &p) }
    fn r_norm(a: &E) -> BigUint { let p = p(); (&a.0 * &a.0 + (&p - (nr() * &a.1 * &a.1) % &p)) % &p }
    fn alphabet(big: bool) -> Vec<BigUint> {
        let p = p();
        let one = BigUint::one();
        let mut v = vec![
            BigUint::zero(), one.clone(), BigUint::from(2u32), BigUint::from(3u32), &p - 1u32, &p - 2u32, &p - 3u32, (&p - 1u32) / 2u32, (&p + 1u32) / 2u32,
            BigUint::from(1u32) << 64, (BigUint::from(1u32) << 192) - 1u32, BigUint::from(1u32) << 250,
            BigUint::parse_bytes(b"1234567890123456789012345678901234567890123456789", 10).unwrap(),
        ];
        // roots of unity of small order
        for k in [1u32, 2, 5] { v.push(BigUint::from(3u32).modpow(&((&p - 1u32) >> (k as usize)), &p)); }
        let mut x = BigUint::from(0x9E3779B97F4A7C15u64);
        for _ in 0..(if big { 12 } else { 4 }) { x = (&x * &x * BigUint::from(5u32) + 17u32) % &p; x = (&x * &x) % &p; v.push(x.clone()); }
        v.sort(); v.dedup();
        v
    }
    fn els(big: bool) -> Vec<E> { let a = alphabet(big); let mut v = vec![]; for x in a.iter() { for y in a.iter() { v.push(E(x.clone(), y.clone())) } } v }

    // is the non-residue of the code the one of the definition? (u squared)
    c.add("constants", |ctx| {
        let u = Fq2 { c0: Q::zero(), c1: Q::one() };
        let mut s = u; s.square();
        ctx.step(3); ctx.trace(); ctx.state(&0);
        ensure!(back(&s) == E(nr(), BigUint::zero()), "u^2 = {:?}", back(&s));
        ensure!(of_q(&Q::multiplicative_generator()) == nr(), "generator");
        ensure!(nr().modpow(&((p() - 1u32) / 2u32), &p()) == p() - 1u32, "3 is a square in the base field");
        ensure!(back(&Fq2::zero()) == E(BigUint::zero(), BigUint::zero()) && back(&Fq2::one()) == E(BigUint::one(), BigUint::zero()), "zero or one");
        Ok(())
    });
    let big = c.thorough;
    let n = alphabet(big).len();
    for i in 0..n {
        c.add(format!("pairs/c0={}", i), move |ctx| {
            let al = alphabet(big);
            let second = els(big);
            for y in al.iter() {
                let a = E(al[i].clone(), y.clone());
                let fa = conv(&a);
                ensure!(back(&fa) == a, "conversion of {:?}", a);
                // one operand
                let mut t = fa; t.square(); ctx.step(1);
                ensure!(back(&t) == r_mul(&a, &a), "square of {:?} = {:?}", a, back(&t));
                let mut t = fa; t.double(); ctx.step(1);
                let p = p();
                ensure!(back(&t) == E((&a.0 * 2u32) % &p, (&a.1 * 2u32) % &p), "double of {:?}", a);
                let mut t = fa; t.negate(); ctx.step(1);
                ensure!(back(&t) == E((&p - &a.0) % &p, (&p - &a.1) % &p), "negation of {:?}", a);
                ensure!(fa.is_zero() == (a.0.is_zero() && a.1.is_zero()), "is_zero of {:?}", a);
                ensure!(of_q(&fa.norm()) == r_norm(&a), "norm of {:?} = {:?}", a, of_q(&fa.norm()));
                ctx.step(2);
                match fa.inverse() {
                    None => ensure!(fa.is_zero(), "{:?} has no inverse", a),
                    Some(v) => ensure!(r_mul(&a, &back(&v)) == E(BigUint::one(), BigUint::zero()), "inverse of {:?} = {:?}", a, back(&v)),
                }
                ctx.step(1);
                for e in [0u64, 1, 2, 3, 7] {
                    let mut w = E(BigUint::one(), BigUint::zero());
                    for _ in 0..e { w = r_mul(&w, &a) }
                    ensure!(back(&fa.pow(&[e])) == w, "{:?}^{}", a, e);
                    ctx.step(1);
                }
                for s in al.iter() {
                    let fs = to_q(s);
                    let mut t = fa; t.mul_by_0(&fs);
                    ensure!(back(&t) == r_mul(&a, &E(s.clone(), BigUint::zero())), "{:?} * {:?}", a, s);
                    let mut t = fa; t.mul_by_1(&fs);
                    ensure!(back(&t) == r_mul(&a, &E(BigUint::zero(), s.clone())), "{:?} * {:?} u = {:?}", a, s, back(&t));
                    ctx.step(2);
                }
                for b in second.iter() {
                    let fb = conv(b);
                    let mut t = fa; t.add_assign(&fb);
                    ensure!(back(&t) == E((&a.0 + &b.0) % &p, (&a.1 + &b.1) % &p), "{:?} + {:?}", a, b);
                    let mut t = fa; t.sub_assign(&fb);
                    ensure!(back(&t) == E((&a.0 + &p - &b.0) % &p, (&a.1 + &p - &b.1) % &p), "{:?} - {:?}", a, b);
                    let mut t = fa; t.mul_assign(&fb);
                    ensure!(back(&t) == r_mul(&a, b), "{:?} * {:?} = {:?}", a, b, back(&t));
                    ensure!((fa == fb) == (&a == b), "equality of {:?} and {:?}", a, b);
                    let want = a.1.cmp(&b.1).then(a.0.cmp(&b.0));
                    ensure!(fa.cmp(&fb) == want, "order of {:?} and {:?}", a, b);
                    ctx.step(4);
                }
                ctx.trace();
                ctx.state(&(format!("{:?}", a)));
                ctx.sample(|| format!("{:?} against {} second operands", a, second.len()));
            }
            Ok(())
        });
    }
    for i in 0..n {
        c.add(format!("roots/c0={}", i), move |ctx| {
            let al = alphabet(big);
            let p = p();
            let half = (&p - 1u32) / 2u32;
            for y in al.iter() {
                let a = E(al[i].clone(), y.clone());
                // of the element itself, and of its square
                for e in [a.clone(), r_mul(&a, &a)] {
                    let f = conv(&e);
                    // a square iff the norm is a square in the base field
                    let n = r_norm(&e);
                    let square = n.is_zero() || n.modpow(&half, &p).is_one();
                    let want = if n.is_zero() { LegendreSymbol::Zero } else if square { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue };
                    ensure!(f.legendre() == want, "character of {:?}: {:?}", e, f.legendre() as i32);
                    let r = quiet(|| f.sqrt()).map_err(|m| format!("square root of {:?}: {}", e, m))?;
                    ctx.step(2);
                    match r {
                        None => { ensure!(!square, "{:?} is a square, but no root is returned", e); ctx.outcome("no root") }
                        Some(r) => { let r = back(&r); ensure!(r_mul(&r, &r) == e, "root of {:?} is {:?}", e, r); ctx.outcome("root") }
                    }
                    ctx.trace();
                    ctx.state(&format!("{:?}", e));
                }
                ctx.sample(|| format!("root of {:?}", a));
            }
            Ok(())
        });
    }
}
#[cfg(not(hodor_verif_fp2))]
fn c26(c: &mut Cases) { c.note("hook for the quadratic extension is not available in this tree"); }

// ------------------------------------------------------------------------------------------ C27

#[cfg(hodor_verif_tensor)]
fn c27(c: &mut Cases) {
    use hodor::verif_hooks::tensor as t;
    let m = if c.thorough { 6 } else { 5 };
    let mut shapes: Vec<(usize, usize, usize)> = vec![];
    for r in 1..=m { for k in 1..=m { shapes.push((r, k, m)) } }
    for (r, k) in [(1, 16), (16, 1), (7, 9), (16, 16), (15, 17), (2, 32), (33, 3), (8, 64)] { shapes.push((r, k, if c.thorough { 17 } else { 4 })) }
    for (r, k) in [(1, 1), (2, 2), (3, 2), (2, 3), (4, 4)] { shapes.push((r, k, if c.thorough { 70 } else { 34 })) }
    for (r, k, m) in shapes {
        c.add(format!("block={}x{}/up to {}", r, k, m), move |ctx| {
            // distinct, and never zero
            let block: Vec<F> = (0..r * k).map(|i| F::new(i as u64 % 255 + 2)).collect();
            let sub = (block.clone(), (r, k));
            for n in 1..=m {
                let diag: Vec<F> = (0..n).map(|i| F::new((100 + 7 * i as u64) % 257)).collect();
                // expand the products
                let mut id = vec![vec![F::zero(); n * k]; n * r];
                let mut di = id.clone();
                for b in 0..n { for i in 0..r { for j in 0..k {
                    id[b * r + i][b * k + j] = block[i * k + j];
                    di[b * r + i][b * k + j] = mul(block[i * k + j], diag[b]);
                } } }
                let dg = (diag.clone(), n);
                for i in 0..n * r { for j in 0..n * k {
                    ctx.step(2);
                    ensure!(t::matrix_over_identity(&sub, (i, j)) == id[i][j], "over identity of size {}: element ({}, {})", n, i, j);
                    ensure!(t::matrix_over_diagonal(&sub, &dg, (i, j)) == di[i][j], "over diagonal of size {}: element ({}, {})", n, i, j);
                } }
                ctx.trace();
                ctx.state(&(r, k, n));
            }
            ctx.sample(|| format!("{}x{} block over identities and diagonals up to {}", r, k, m));
            Ok(())
        });
    }
    let mut lens: Vec<usize> = (1..=m + 2).collect();
    lens.extend([15, 16, 17, 31, 32, 33, 64, 65, 100]);
    for &n in &lens { for &k in &lens {
        c.add(format!("vectors={},{}", n, k), move |ctx| {
            let a: Vec<F> = (0..n).map(|i| F::new(3 + i as u64)).collect();
            let b: Vec<F> = (0..k).map(|i| F::new((50 + 11 * i as u64) % 257)).collect();
            let (va, vb) = ((a.clone(), n), (b.clone(), k));
            for i in 0..n * k {
                ctx.step(1);
                ensure!(t::vector_over_vector(&va, &vb, i) == mul(a[i % n], b[i / n]), "element {}", i);
            }
            ctx.trace();
            ctx.state(&(n, k, 77));
            Ok(())
        });
    } }
}
#[cfg(not(hodor_verif_tensor))]
fn c27(c: &mut Cases) { c.note("hook for tensor queries is not available in this tree"); }
