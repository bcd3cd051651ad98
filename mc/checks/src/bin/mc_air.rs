//! C18 trace checking, C19–C21 the polynomials of the prover, C25 delay functions
#![allow(dead_code, unused_imports)]
use checks::field::*;
use checks::open::*;
use checks::refs::*;
use checks::stark::*;
use checks::*;
use ff::{Field, PrimeField};
use hodor::air::*;
use hodor::ali::per_register::*;
use hodor::ali::*;
use hodor::arp::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::*;
use hodor::polynomials::*;
use hodor::transcript::*;
use mcrt::engine::*;
use mcrt::ensure;
use mcrt::sched::Order;

type Sk = bigf::stark::Fr;
type F3 = Fp<3, 2>;
type F5 = Fp<5, 2>;
type Arp<F> = ARPInstance<F, PerRegisterARP>;

fn main() {
    mcrt::engine::main(&[
        Property { id: "C18", build: c18, space: "over a 3-element field, all traces of 1 register x 2..5 rows, 2 registers x 2..4 rows and 3 registers x 2 rows (up to 8 rows or 9 cells thorough), against: every constraint of one univariate term (coefficient, register, step 0..2, power 0..3), constant and density (start 0..4, span 0..4); every sum of two univariate terms; every product of up to three factors; every set of up to two boundary constraints; pairs of constraints with boundary constraints. Over a 62-bit field, every single-cell change of every instance of the family with 2..33 rows (one change per cell up to 129 rows, thorough 512, on 1..100 workers; changes around the ends, the boundary rows and the powers of two for 1000..70000 rows, thorough 300000). Every wrong shape of the trace and every reference outside it, up to 64-bit boundary values",
            assumptions: &["the plain row-by-row evaluation in stark.rs is the definition", "constraint densities other than dense ranges are not implemented by the code and are not part of the space"] },
        Property { id: "C19", build: c19, space: "all instances of the family x 2..17 rows (thinned: up to 128, thorough 512) x CPU counts 1..100 x three task orders x given and drawn challenges, compared coefficient by coefficient; all points of a 12289-element field outside the column domain; every value of every single challenge over a 257-element field; every single-cell change of the trace (the number of points of agreement is counted against its bound); every pair of terms over an alphabet of coefficients (0, 1, -1, others), powers 0.., products with inner coefficients; boundary rows and steps around powers of two for up to 1100 rows",
            assumptions: &["the plain evaluation of the composition in stark.rs is the definition", "multi-coset extensions under the recorded finding D1 are left out (see C13)"] },
        Property { id: "C20", build: c20, space: "all row counts 1..132 (thorough 1..300) and around 256, 512, 1000, powers of two up to 2^17 (thorough 2^19) x 1..17 registers x CPU counts 1..100 x three task orders x unit and dense columns, four fields; every shift by 0..2T rows; every wrong number of rows and registers; sizes above the two-adicity of small fields",
            assumptions: &["interpolation is decided on unit columns (a basis) and dense columns"] },
        Property { id: "C21", build: c21, space: "all instances of the family x 2..9 rows (thinned: up to 64, thorough 128; up to 65536 with fewer points; many masks) x extension factors 2..8 x every out-of-domain point of a 257-element field (a set of points for larger fields) x CPU counts 1..100 x three task orders, every entry of both tables and every claimed value; traces and composition need not be satisfied; with the challenges given, the prover's own proof is accepted at every position",
            assumptions: &["the plain formulas of stark.rs are the definition"] },
        Property { id: "C25", build: c25, space: "all starts over F3, F5 and F17 x operation counts 1..9, exact trace, statement and verdict; all traces over F3 (and F5 for the shortest) against the instance: exactly the named computation satisfies it; every value of every cell over F17; proofs for starts over a 62-bit and the 251-bit field, sizes up to 65 rows; all numbers of operations up to 260 (thorough 600) and some up to 70000; every single-cell change",
            assumptions: &["multi-coset extensions under the recorded finding D1 are left out (see C13)"] },
    ])
}

fn sat<F: PrimeField>(p: &Props<F>, w: &Vec<Vec<F>>) -> Result<bool, String> { quiet(|| on(1, Order::Fifo, |k| Arp::<F>::is_satisfied(p, w, k).is_ok())) }

// ------------------------------------------------------------------------------------------ C18

/// all traces of `regs` registers and `n` rows
fn all_traces<F: PrimeField>(q: u64, regs: usize, n: usize) -> Vec<Vec<Vec<F>>> {
    let k = regs * n;
    (0..(q as usize).pow(k as u32)).map(|mut x| { let mut l = vec![]; for _ in 0..k { l.push(fe::<F>(x as u64 % q)); x /= q as usize } l.chunks(n).map(|c| c.to_vec()).collect() }).collect()
}

/// verdict of the code on all these traces; what refers outside the trace has to be refused whenever a covered row does so
fn decide<F: PrimeField>(ctx: &mut Ctx, p: &Props<F>, traces: &[Vec<Vec<F>>], what: &dyn Fn() -> String) -> R {
    let r = Ref::new(p);
    ctx.state(&format!("{:?}", p));
    for w in traces {
        let want = r.satisfied(w) == Some(true);
        ctx.step(1);
        match sat(p, w) {
            Err(m) => return Err(format!("{}: trace {:?}: crash: {}", what(), w, m).into()),
            Ok(got) if got != want => return Err(format!("{}: trace {:?}: reported {}, but the trace {}", what(), w, if got { "satisfied" } else { "not satisfied" }, match r.satisfied(w) { None => "does not contain what the statement refers to", Some(true) => "satisfies it", Some(false) => "violates it" }).into()),
            Ok(got) => { ctx.outcome(if got { "satisfied" } else { "not satisfied" }) }
        }
    }
    ctx.trace();
    Ok(())
}
fn props<F: PrimeField>(n: usize, regs: usize, c: Vec<Constraint<F>>, b: Vec<BoundaryConstraint<F>>) -> Props<F> { InstanceProperties { num_rows: n, num_registers: regs, constraints: c, boundary_constraints: b } }

fn univariates(regs: usize) -> Vec<ConstraintTerm<F3>> {
    let mut v = vec![];
    for c in 1..3 { for r in 0..regs { for s in 0..3 { for p in 0..4 { v.push(uni(fe::<F3>(c), r, s, p)) } } } }
    v
}
const SHAPES: [(usize, usize); 12] = [(1, 2), (1, 3), (1, 4), (1, 5), (2, 2), (2, 3), (3, 2), (2, 4), (1, 7), (3, 3), (1, 8), (4, 2)];

fn c18(c: &mut Cases) {
    let f = |x: u64| fe::<F3>(x);
    for (regs, n) in SHAPES {
        if (regs * n > 8 || regs > 3 || n > 5) && !c.thorough { continue }
        // one term, everything about it
        for start in 0..5usize { for span in 0..5usize {
            c.add(format!("term/{}x{}/{}-{}", regs, n, start, span), move |ctx| {
                let tr = all_traces::<F3>(3, regs, n);
                for t in univariates(regs) { for k in 0..3 {
                    let p = props(n, regs, vec![con(f(k), vec![t.clone()], start, span)], vec![]);
                    decide(ctx, &p, &tr, &|| format!("{} rows, constant {}, term {:?}, start {} span {}", n, k, t, start, span))?;
                } }
                ctx.sample(|| format!("{} traces", tr.len()));
                Ok(())
            });
        } }
        for (start, span) in [(0usize, 1usize), (1, 1), (0, 0), (0, 2), (1, 0)] {
            c.add(format!("sum/{}x{}/{}-{}", regs, n, start, span), move |ctx| {
                let tr = all_traces::<F3>(3, regs, n);
                let u = univariates(regs);
                for a in 0..u.len() { for b in 0..=a {
                    if span == 0 && (a + b) % 3 != 0 { continue }
                    let p = props(n, regs, vec![con(f((a % 3) as u64), vec![u[a].clone(), u[b].clone()], start, span)], vec![]);
                    decide(ctx, &p, &tr, &|| format!("{} rows, constant {}, terms {:?} and {:?}, start {} span {}", n, a % 3, u[a], u[b], start, span))?;
                } }
                Ok(())
            });
            c.add(format!("product/{}x{}/{}-{}", regs, n, start, span), move |ctx| {
                let tr = all_traces::<F3>(3, regs, n);
                let mut fs: Vec<(usize, usize, u64)> = vec![];
                for r in 0..regs { for s in 0..3 { for p in 1..3 { fs.push((r, s, p)) } } }
                let mut go = |l: &[(usize, usize, u64)], k: usize| -> R {
                    let mut t = prod(f(1 + (k % 2) as u64), l);
                    // a coefficient inside the product
                    if k % 5 == 0 { if let ConstraintTerm::Polyvariate(x) = &mut t { if let Some(y) = x.terms.last_mut() { y.coeff = f(2) } } }
                    let p = props(n, regs, vec![con(f((k % 3) as u64), vec![t.clone()], start, span)], vec![]);
                    decide(ctx, &p, &tr, &|| format!("{} rows, constant {}, product {:?}, start {} span {}", n, k % 3, t, start, span))
                };
                let mut k = 0;
                go(&[], 0)?; go(&[], 2)?;
                for a in 0..fs.len() { go(&[fs[a]], k)?; k += 1; for b in 0..=a { go(&[fs[a], fs[b]], k)?; k += 1; for e in 0..=b { go(&[fs[a], fs[b], fs[e]], k)?; k += 1 } } }
                Ok(())
            });
        }
        c.add(format!("boundary/{}x{}", regs, n), move |ctx| {
            let tr = all_traces::<F3>(3, regs, n);
            let mut bs: Vec<BoundaryConstraint<F3>> = vec![];
            for r in 0..regs { for t in 0..n { for v in 0..3 { bs.push(bound(r, t, f(v))) } let mut b = bound(r, t, f(0)); b.value = None; bs.push(b) } }
            decide(ctx, &props(n, regs, vec![], vec![]), &tr, &|| "nothing".into())?;
            for a in 0..bs.len() {
                decide(ctx, &props(n, regs, vec![], vec![bs[a].clone()]), &tr, &|| format!("{} rows, {:?}", n, bs[a]))?;
                for b in 0..bs.len() { decide(ctx, &props(n, regs, vec![], vec![bs[a].clone(), bs[b].clone()]), &tr, &|| format!("{} rows, {:?} and {:?}", n, bs[a], bs[b]))? }
            }
            Ok(())
        });
        c.add(format!("together/{}x{}", regs, n), move |ctx| {
            let tr = all_traces::<F3>(3, regs, n);
            let r1 = regs - 1;
            let cs: Vec<Constraint<F3>> = vec![
                con(f(0), vec![uni(f(1), 0, 1, 1), uni(f(2), r1, 0, 1)], 0, 1), con(f(1), vec![uni(f(1), r1, 0, 2)], 0, 0), con(f(0), vec![prod(f(1), &[(0, 0, 1), (r1, 1, 1)]), uni(f(2), 0, 0, 1)], 0, 1),
                con(f(2), vec![uni(f(1), r1, 2, 3)], 0, 2), con(f(1), vec![uni(f(1), 0, 1, 1), uni(f(1), r1, 0, 1)], 1, 1), con(f(0), vec![], 0, 1), con(f(1), vec![], 0, 0), con(f(1), vec![], n, 0), con(f(2), vec![], n - 1, 0), con(f(2), vec![], n - 1, 1)];
            let bs: Vec<Vec<BoundaryConstraint<F3>>> = vec![vec![], vec![bound(0, 0, f(1))], vec![bound(r1, n - 1, f(2))], vec![bound(0, n - 1, f(0)), bound(r1, 0, f(1))]];
            for a in cs.iter() { for b in cs.iter() { for x in bs.iter() {
                decide(ctx, &props(n, regs, vec![a.clone(), b.clone()], x.clone()), &tr, &|| format!("{} rows, {:?} and {:?} and {:?}", n, a, b, x))?;
                decide(ctx, &props(n, regs, vec![a.clone(), cs[0].clone(), b.clone()], x.clone()), &tr, &|| format!("{} rows, {:?}, {:?}, {:?} and {:?}", n, a, cs[0], b, x))?;
            } } }
            Ok(())
        });
    }
    // larger instances
    for n in [2usize, 3, 4, 5, 7, 8, 9, 16, 17, 33] { for i in family::<F62>(n) {
        c.add(format!("cells/{}/n{}", i.name, n), move |ctx| {
            let mut tr = vec![i.witness.clone()];
            for r in 0..i.witness.len() { for t in 0..n { for v in [add(i.witness[r][t], F62::one()), F62::zero(), neg(i.witness[r][t])] { let mut w = i.witness.clone(); w[r][t] = v; tr.push(w) } } }
            decide(ctx, &i.props, &tr, &|| format!("{} with {} rows", i.name, n))
        });
    } }
    // statements with many of something: every cell
    for n in [2usize, 3, 4, 5, 8] { for i in wide::<F62>(n) {
        c.add(format!("wide/{}/n{}", i.name, n), move |ctx| {
            let mut tr = vec![i.witness.clone()];
            for r in 0..i.witness.len() { for t in 0..n { let mut w = i.witness.clone(); w[r][t].add_assign(&fe(1 + (r + t) as u64)); tr.push(w) } }
            decide(ctx, &i.props, &tr, &|| format!("{} with {} rows", i.name, n))
        });
    } }
    // long traces: every cell once, on several workers
    for n in if c.thorough { vec![31usize, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512] } else { vec![31, 32, 63, 64, 65, 100, 128, 129] } { for i in family::<F62>(n) {
        if i.witness.len() > 5 { continue }
        c.add(format!("long/{}/n{}", i.name, n), move |ctx| {
            let r = Ref::new(&i.props);
            ctx.state(&(i.name.clone(), n));
            let ms = machines(false);
            let mut k = 0;
            for reg in 0..i.witness.len() { for row in 0..n {
                let mut w = i.witness.clone();
                w[reg][row].add_assign(&fe(1 + (k as u64 % 3) * 123456789));
                let m = ms[k % ms.len()];
                k += 1;
                let want = r.satisfied(&w) == Some(true);
                ctx.step(1);
                let got = quiet(|| on(m.0, m.1, |x| Arp::<F62>::is_satisfied(&i.props, &w, x).is_ok()));
                ensure!(got == Ok(want), "{} with {} rows on {} workers, register {} row {} changed: {:?}, by definition {}", i.name, n, m.0, reg, row, got, want);
                ctx.outcome(if want { "satisfied" } else { "not satisfied" });
            } }
            for m in ms { ctx.step(1); let got = quiet(|| on(m.0, m.1, |x| Arp::<F62>::is_satisfied(&i.props, &i.witness, x).is_ok())); ensure!(got == Ok(true), "{} with {} rows on {} workers: refused ({:?})", i.name, n, m.0, got) }
            ctx.trace();
            Ok(())
        });
    } }
    // traces of more than 2^16 rows: cells around every power of two
    for n in if c.thorough { vec![1000usize, 5000, 32768, 32769, 65536, 65537, 70000, 131072, 300000] } else { vec![1000, 5000, 65537, 70000] } { for i in family::<F62>(n) {
        if i.witness.len() > 3 { continue }
        c.add(format!("large/{}/n{}", i.name, n), move |ctx| {
            let r = Ref::new(&i.props);
            ctx.state(&(i.name.clone(), n));
            let mut rows: Vec<usize> = (0..20).flat_map(|k| [(1usize << k) - 1, 1 << k, n - n.min(1 << k)]).chain([n - 1, n / 2, n - 2]).filter(|r| *r < n).collect();
            rows.sort(); rows.dedup();
            if n > 1 << 13 { rows.retain(|r| *r > n / 5) }
            let ms = [(1, Order::Fifo), (3, Order::Lifo), (8, Order::Eager)];
            ctx.step(1);
            ensure!(quiet(|| on(3, Order::Lifo, |x| Arp::<F62>::is_satisfied(&i.props, &i.witness, x).is_ok())) == Ok(true) && r.satisfied(&i.witness) == Some(true), "{} with {} rows: refused", i.name, n);
            let mut w = i.witness.clone();
            for reg in 0..w.len() { for (k, &row) in rows.iter().enumerate() {
                let old = w[reg][row];
                w[reg][row].add_assign(&fe(1 + (k as u64 % 3) * 123456789));
                let m = ms[k % 3];
                let want = r.satisfied(&w) == Some(true);
                ctx.step(1);
                let got = quiet(|| on(m.0, m.1, |x| Arp::<F62>::is_satisfied(&i.props, &w, x).is_ok()));
                ensure!(got == Ok(want), "{} with {} rows on {} workers, register {} row {} changed: {:?}, by definition {}", i.name, n, m.0, reg, row, got, want);
                ctx.outcome(if want { "satisfied" } else { "not satisfied" });
                ctx.state(&(reg, row));
                w[reg][row] = old;
            } }
            ctx.trace();
            Ok(())
        });
    } }
    // outside the trace
    for n in [2usize, 3, 4, 5, 8] { for i in family::<F62>(n) {
        if i.witness.len() > 4 { continue }
        c.add(format!("outside/{}/n{}", i.name, n), move |ctx| {
            let never = |ctx: &mut Ctx, p: &Props<F62>, w: &Vec<Vec<F62>>, what: String| -> R {
                ctx.step(1);
                ctx.state(&what);
                ctx.trace();
                match sat(p, w) {
                    Err(m) => Err(format!("{} with {} rows, {}: crash: {}", i.name, n, what, m).into()),
                    Ok(true) => Err(format!("{} with {} rows, {}: reported as satisfied", i.name, n, what).into()),
                    Ok(false) => { ctx.outcome("refused"); Ok(()) }
                }
            };
            // shapes
            let k = i.witness.len();
            let mut shapes: Vec<(String, Vec<Vec<F62>>)> = vec![("no registers".into(), vec![])];
            for r in 0..k { let mut w = i.witness.clone(); w.remove(r); shapes.push((format!("register {} missing", r), w)) }
            let mut w = i.witness.clone(); w.push(i.witness[0].clone()); shapes.push(("a register more".into(), w));
            for r in 0..k {
                let mut w = i.witness.clone(); w[r].pop(); shapes.push((format!("register {} a row short", r), w));
                let mut w = i.witness.clone(); w[r].clear(); shapes.push((format!("register {} empty", r), w));
                let mut w = i.witness.clone(); w[r].push(F62::zero()); shapes.push((format!("register {} a row long", r), w));
                let mut w = i.witness.clone(); w[r].resize(2 * n, F62::one()); shapes.push((format!("register {} twice as long", r), w));
            }
            let mut w = i.witness.clone(); for c in w.iter_mut() { c.pop(); } shapes.push(("a row short".into(), w));
            let mut w = i.witness.clone(); for c in w.iter_mut() { c.push(F62::zero()) } shapes.push(("a row long".into(), w));
            for (s, w) in shapes { never(ctx, &i.props, &w, s)? }
            // references
            let big = [n, n + 1, 2 * n, 1 << 31, 1 << 32, 1 << 62, 1 << 63, usize::MAX - 1, usize::MAX];
            for x in big {
                for row in 0..n {
                    let mut p = i.props.clone();
                    p.constraints.push(con(F62::zero(), vec![uni(F62::one(), 0, x - row.min(x - n), 1)], row, 0));
                    // row + step reaches exactly the end or lies beyond it
                    never(ctx, &p, &i.witness, format!("row {} and {} steps", row, x - row.min(x - n)))?;
                    let mut p = i.props.clone();
                    p.constraints.push(con(F62::zero(), vec![prod(F62::zero(), &[(0, 0, 1), (0, x, 1)])], row, 0));
                    never(ctx, &p, &i.witness, format!("product from row {} with {} steps", row, x))?;
                }
                let mut p = i.props.clone();
                p.boundary_constraints.push(bound(0, x, F62::zero()));
                never(ctx, &p, &i.witness, format!("boundary constraint at row {}", x))?;
                let mut p = i.props.clone();
                p.constraints.push(con(F62::zero(), vec![uni(F62::zero(), k.saturating_add(x - n), 0, 1)], 0, 0));
                never(ctx, &p, &i.witness, format!("register {}", k.saturating_add(x - n)))?;
                let mut p = i.props.clone();
                p.boundary_constraints.push(bound(k.saturating_add(x - n), 0, F62::zero()));
                never(ctx, &p, &i.witness, format!("boundary constraint on register {}", k.saturating_add(x - n)))?;
                let mut p = i.props.clone(); p.num_rows = x; if x != n { never(ctx, &p, &i.witness, format!("statement of {} rows", x))? }
                let mut p = i.props.clone(); p.num_registers = (k + 1).saturating_add(x - n); never(ctx, &p, &i.witness, format!("statement of {} registers", (k + 1).saturating_add(x - n)))?;
                // constraints that cover nothing are satisfied, whatever their numbers
                for (st, sp) in [(x, 0), (0, x), (x, x), (x, 1), (n - 1, x)] {
                    let mut p = i.props.clone();
                    p.constraints.push(con(F62::one(), vec![uni(F62::one(), 0, 0, 1)], st, sp));
                    ctx.step(1);
                    ensure!(sat(&p, &i.witness) == Ok(true), "{} with {} rows: a constraint from row {} with span {} covers no rows, but the trace is refused ({:?})", i.name, n, st, sp, sat(&p, &i.witness));
                }
            }
            Ok(())
        });
    } }
}

// ------------------------------------------------------------------------------------------ C19

struct Run<F: PrimeField> { polys: Vec<Polynomial<F, Coefficients>>, ali: ALIInstance<F, PerRegisterARP>, g: Polynomial<F, Coefficients>, ch: Vec<(F, F)>, log: Vec<Op> }

/// the composition as the code builds it, with the challenges it drew
fn compose<F: PrimeField>(p: &Props<F>, w: &[Vec<F>], script: Option<Vec<u64>>, cpus: usize, o: Order) -> Result<Run<F>, String> {
    record(script, None);
    let r = quiet(|| on(cpus, o, |k| -> Result<_, String> {
        let e = |e| format!("{:?}", e);
        let arp = Arp::<F>::from_instance(p.clone(), k).map_err(|x| e(x))?;
        let polys = arp.calculate_witness_polys(w.to_vec(), k).map_err(|x| e(x))?;
        let ali = ALIInstance::from_arp(arp, k).map_err(|x| e(x))?;
        let mut t = Rec::<F>::new();
        let g = ali.calculate_g(&mut t, polys.clone(), k).map_err(|x| e(x))?;
        Ok((polys, ali, g))
    }));
    let log = recorded();
    match r {
        Err(m) => Err(format!("crash: {}", m)),
        Ok(Err(m)) => Err(format!("failure: {}", m)),
        Ok(Ok((polys, ali, g))) => {
            let (sc, _) = draws::<F>(&log);
            let k = p.constraints.len() + p.boundary_constraints.len();
            if sc.len() != 2 * k { return Err(format!("{} challenges drawn for {} constraints", sc.len(), k)) }
            Ok(Run { polys, ali, g, ch: (0..k).map(|i| (sc[2 * i], sc[2 * i + 1])).collect(), log })
        }
    }
}

fn same_poly<F: PrimeField>(a: &[F], b: &[F]) -> bool { ptrim(a.to_vec()) == ptrim(b.to_vec()) }

/// the result has to be the polynomial of the definition; for satisfied traces it has to be the composition everywhere
fn composed<F: PrimeField>(ctx: &mut Ctx, i: &Inst<F>, w: &[Vec<F>], script: Option<Vec<u64>>, cpus: usize, o: Order, points: &[F]) -> Result<usize, Fail> {
    let r = Ref::new(&i.props);
    let at = |s: String| format!("{} with {} rows, {} CPUs {:?}: {}", i.name, i.props.num_rows, cpus, o, s);
    ctx.step(1);
    let run = match compose(&i.props, w, script, cpus, o) { Ok(x) => x, Err(m) => return Err(at(m).into()) };
    let polys = r.polys(w);
    ensure!(run.g.as_ref().len() <= r.cdom, "{}", at(format!("{} coefficients, the bound is {}", run.g.as_ref().len(), r.cdom)));
    let want = r.g_poly(&run.ch, &polys);
    ctx.state(&(i.name.clone(), cpus, w.iter().map(|c| c.iter().map(be).collect::<Vec<_>>()).collect::<Vec<_>>(), run.ch.iter().map(|x| (be(&x.0), be(&x.1))).collect::<Vec<_>>()));
    ensure!(same_poly(run.g.as_ref(), &want), "{}", at(format!("the composition is {:?}, by its definition {:?}", run.g.as_ref(), want)));
    let ok = r.satisfied(w) == Some(true);
    let mut agree = 0;
    for x in points {
        let def = match r.g_of_polys(*x, &run.ch, &polys) { Some(v) => v, None => continue };
        let got = eval(run.g.as_ref(), *x);
        ensure!(!ok || def == got, "{}", at(format!("satisfied, but at {:?} the committed polynomial gives {:?} and the verifier expects {:?}", x, got, def)));
        if def == got { agree += 1 }
    }
    ctx.trace();
    Ok(agree)
}

fn c19(c: &mut Cases) {
    let thorough = c.thorough;
    // all CPU counts
    for n in [2usize, 3, 4, 5, 7, 8, 9, 16, 17] {
        for i in family::<F62>(n) {
            if !thorough && n > 9 && i.cfactor() > 8 { continue }
            c.add(format!("definition/{}/n{}", i.name, n), move |ctx| {
                let pts = seq::<F62>(5, 3);
                for m in machines(thorough) { if d1(m.0, i.cfactor()) { continue } composed(ctx, &i, &i.witness, None, m.0, m.1, &pts)?; }
                Ok(())
            });
        }
        if n <= 8 { for i in family::<Sk>(n) {
            if i.witness.len() > 4 { continue }
            c.add(format!("large field/{}/n{}", i.name, n), move |ctx| { for m in [(1, Order::Fifo), (3, Order::Lifo), (8, Order::Eager)] { if d1(m.0, i.cfactor()) { continue } composed(ctx, &i, &i.witness, None, m.0, m.1, &seq::<Sk>(4, 5))?; } Ok(()) });
        } }
    }
    // long traces, large constraint domains
    for n in if thorough { vec![31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257, 512, 1000, 1024, 2048, 4096] } else { vec![31, 32, 33, 64, 65, 128, 255, 512, 1024] } { for (k, i) in family::<F62>(n).into_iter().enumerate() {
        if i.cfactor() * n.next_power_of_two() > if thorough { 16384 } else { 4096 } { continue }
        c.add(format!("long/{}/n{}", i.name, n), move |ctx| {
            let ms: Vec<_> = machines(thorough).into_iter().filter(|m| !d1(m.0, i.cfactor())).collect();
            for j in [0, k, k + 5] { let m = ms[j % ms.len()]; composed(ctx, &i, &i.witness, None, m.0, m.1, &seq::<F62>(3, 3))?; }
            Ok(())
        });
    } }
    // statements with many of something
    for n in if thorough { vec![2usize, 3, 4, 5, 8, 9, 16] } else { vec![2, 3, 5] } { for (k, i) in wide::<F62>(n).into_iter().enumerate() {
        c.add(format!("wide/{}/n{}", i.name, n), move |ctx| {
            let ms: Vec<_> = machines(thorough).into_iter().filter(|m| !d1(m.0, i.cfactor())).collect();
            let pts = seq::<F62>(3, 3);
            for j in [0, k, k + 5] { let m = ms[j % ms.len()]; composed(ctx, &i, &i.witness, None, m.0, m.1, &pts)?; }
            let r = Ref::new(&i.props);
            let w = i.witness.len();
            for reg in [0, w / 2, w - 1] { for row in [0, n - 1] {
                let mut x = i.witness.clone();
                x[reg][row].add_assign(&fe(12345));
                let agree = composed(ctx, &i, &x, None, 1, Order::Fifo, &pts)?;
                if r.satisfied(&x) == Some(false) { ensure!(agree == 0, "{} with {} rows, cell ({},{}) changed: the composition still is what the verifier expects", i.name, n, reg, row) }
            } }
            Ok(())
        });
    } }
    // pairs of terms, in one constraint and in two
    for n in if thorough { vec![2usize, 3, 4, 5, 8] } else { vec![2, 5] } { for a in 0..48usize {
        c.add(format!("pairs/n{}/first={}", n, a), move |ctx| {
            let w: Vec<Vec<F62>> = (0..2).map(|r| seq(n, 70 + r)).collect();
            let coeffs: [F62; 3] = [fe(1), neg(fe(1)), fe(5)];
            let term = |k: usize| uni(coeffs[k % 3], k / 3 % 2, k / 6 % 2, [0, 1, 2, 3][k / 12] as u64);
            let ms: Vec<_> = machines(false).into_iter().filter(|m| !d1(m.0, 4)).collect();
            for b in 0..48usize { for together in [true, false] {
                let cs = if together { vec![con(fe(2), vec![term(a), term(b)], 0, 1)] } else { vec![con(fe(2), vec![term(a)], 0, 1), con(fe(3), vec![term(b)], 0, 1)] };
                let i = Inst { name: format!("{:?} and {:?}, together: {}", term(a), term(b), together), props: props(n, 2, cs, vec![]), witness: w.clone() };
                let m = ms[(a * 5 + b) % ms.len()];
                composed(ctx, &i, &w, None, m.0, m.1, &[])?;
            } }
            // products with coefficients inside, next to single terms
            for b in 0..24usize { for d in 0..24usize {
                if !thorough && (a + b + d) % 8 != 0 { continue }
                let mut t = prod(coeffs[(a + b) % 3], &[(b / 3 % 2, b / 6 % 2, 1 + b as u64 / 12), (d / 3 % 2, d / 6 % 2, 1 + d as u64 / 12)]);
                if let ConstraintTerm::Polyvariate(x) = &mut t { x.terms[0].coeff = coeffs[b % 3]; x.terms[1].coeff = coeffs[d % 3] }
                for cs in [vec![con(fe(2), vec![term(a), t.clone()], 0, 1)], vec![con(fe(2), vec![t.clone()], 0, 1), con(fe(3), vec![term(a)], 0, 1), con(fe(3), vec![t.clone(), term(a)], 0, 0)]] {
                    let i = Inst { name: format!("{:?} and {:?}, constraints: {}", term(a), t, cs.len()), props: props(n, 2, cs, vec![]), witness: w.clone() };
                    let m = ms[(a * 5 + b + d) % ms.len()];
                    composed(ctx, &i, &w, None, m.0, m.1, &[])?;
                }
            } }
            Ok(())
        });
    } }
    // boundary constraints and steps far apart
    for n in if thorough { vec![260usize, 600, 1000, 1100, 2048, 5000] } else { vec![260, 600, 1100] } { for m in [(1, Order::Fifo), (3, Order::Lifo), (8, Order::Eager)] {
        c.add(format!("far/n{}/cpus={}/{:?}", n, m.0, m.1), move |ctx| {
            let w: Vec<Vec<F62>> = (0..2).map(|r| seq(n, 70 + r)).collect();
            let mut rows: Vec<usize> = (0..13).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([n - 1]).filter(|r| *r < n).collect();
            rows.sort(); rows.dedup();
            let bs: Vec<BoundaryConstraint<F62>> = rows.iter().enumerate().map(|(k, r)| bound(k % 2, *r, w[k % 2][*r])).collect();
            let fars: Vec<ConstraintTerm<F62>> = rows.iter().enumerate().map(|(k, s)| uni(fe(k as u64 + 2), k % 2, *s, 1 + k as u64 % 2)).collect();
            let last = *rows.last().unwrap();
            let far = vec![con(fe(1), fars, 0, last), con(fe(2), vec![prod(fe(3), &[(0, last / 2, 1), (1, 1, 1)])], 3, last / 2)];
            let near = vec![con(fe(1), vec![uni(fe(1), 0, 1, 1), uni(fe(4), 1, 0, 2)], 0, 1)];
            for (k, (cs, bs)) in [(near.clone(), bs.clone()), (near, bs.into_iter().rev().collect()), (far, vec![])].into_iter().enumerate() {
                if k == 2 && n > 1024 { continue }
                let i = Inst { name: format!("far {}", k), props: props(n, 2, cs, bs), witness: w.clone() };
                composed(ctx, &i, &w, None, m.0, m.1, &[])?;
            }
            Ok(())
        });
    } }
    c.add("reference", |ctx| {
        for n in [2usize, 3, 5, 8] { for i in family::<F62>(n) {
            let r = Ref::new(&i.props);
            let p = r.polys(&i.witness);
            let ch: Vec<(F62, F62)> = seq::<F62>(r.pairs(), 3).into_iter().zip(seq::<F62>(r.pairs(), 4)).collect();
            ctx.step(1); ctx.state(&(n, i.name.clone()));
            ensure!(r.g_poly(&ch, &p) == r.g_poly_plainly(&ch, &p), "the references disagree on {} with {} rows", i.name, n);
        } }
        Ok(())
    });
    // every point of a field
    for n in [2usize, 3, 4, 5, 8] {
        for i in family::<F12289>(n) {
            if i.witness.len() > 4 { continue }
            c.add(format!("all points/{}/n{}", i.name, n), move |ctx| {
                let r = Ref::new(&i.props);
                let all: Vec<F12289> = (0..12289u64).map(fe).filter(|x| !sub(pw(*x, r.t as u64), F12289::one()).is_zero()).collect();
                let script = |s: u64| Some(seq::<F12289>(2 * r.pairs().max(1), s).iter().map(|x| x.val()).collect::<Vec<_>>());
                for s in 0..2 { let k = composed(ctx, &i, &i.witness, script(s), 1, Order::Fifo, &all)?; ensure!(k == all.len(), "harness"); }
                // violated: agreement only where the degrees allow it
                for reg in 0..i.witness.len() { for row in [0, n / 2, n - 1] {
                    let mut w = i.witness.clone();
                    w[reg][row].add_assign(&fe(1234));
                    if r.satisfied(&w) != Some(false) { continue }
                    let k = composed(ctx, &i, &w, script(7), 1, Order::Fifo, &all)?;
                    let bound = r.cdom + r.t + r.props.boundary_constraints.len() + r.max as usize * r.t;
                    ensure!(k <= bound, "{} with {} rows, cell ({},{}) changed: composition and its expectation agree at {} points of {}, more than {}", i.name, n, reg, row, k, all.len(), bound);
                    ctx.outcome("violated: disagrees");
                } }
                Ok(())
            });
        }
    }
    // every value of every challenge
    for n in [2usize, 4, 5] {
        for i in family::<F257>(n) {
            if i.witness.len() > 4 || i.cfactor() * n.next_power_of_two() > 64 { continue }
            c.add(format!("all challenges/{}/n{}", i.name, n), move |ctx| {
                let r = Ref::new(&i.props);
                let pts: Vec<F257> = seq::<F257>(12, 9).into_iter().filter(|x| !sub(pw(*x, r.t as u64), F257::one()).is_zero()).collect();
                for k in 0..2 * r.pairs() {
                    let mut s: Vec<u64> = seq::<F257>(2 * r.pairs(), 17).iter().map(|x| x.val()).collect();
                    for v in 0..257 { s[k] = v; composed(ctx, &i, &i.witness, Some(s.clone()), 1, Order::Fifo, &pts)?; }
                }
                // all zero, all one
                for v in [0, 1, 256] { composed(ctx, &i, &i.witness, Some(vec![v]), 1, Order::Fifo, &pts)?; }
                Ok(())
            });
        }
    }
    // traces that violate the statement
    for n in [2usize, 3, 4, 5, 8, 9] {
        for i in family::<F62>(n) {
            if i.witness.len() > 4 { continue }
            c.add(format!("violated/{}/n{}", i.name, n), move |ctx| {
                let r = Ref::new(&i.props);
                let pts = seq::<F62>(6, 21);
                for reg in 0..i.witness.len() { for row in 0..n { for d in [1u64, 1 << 33] {
                    let mut w = i.witness.clone();
                    w[reg][row].add_assign(&fe(d));
                    let k = composed(ctx, &i, &w, None, 1, Order::Fifo, &pts)?;
                    if r.satisfied(&w) == Some(false) { ensure!(k == 0, "{} with {} rows, cell ({},{}) changed: the composition still is what the verifier expects", i.name, n, reg, row); ctx.outcome("violated: disagrees") } else { ctx.outcome("still satisfied") }
                } } }
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------------------------------ C20

fn registers<F: PrimeField>(ctx: &mut Ctx, w: &[Vec<F>], cpus: usize, o: Order, shifts: bool, name: &str) -> R {
    let n = w[0].len();
    let t = n.next_power_of_two();
    let at = |s: String| format!("{}, {} rows, {} registers, {} CPUs {:?}: {}", name, n, w.len(), cpus, o, s);
    let p: Props<F> = InstanceProperties { num_rows: n, num_registers: w.len(), constraints: vec![], boundary_constraints: vec![] };
    ctx.step(1);
    ctx.state(&(name.to_string(), n, w.len(), cpus));
    let polys = match quiet(|| on(cpus, o, |k| Arp::<F>::from_instance(p.clone(), k).and_then(|a| a.calculate_witness_polys(w.to_vec(), k)).map_err(|e| format!("{:?}", e)))) {
        Err(m) => return Err(at(format!("crash: {}", m)).into()),
        Ok(Err(m)) => return Err(at(format!("failure: {}", m)).into()),
        Ok(Ok(x)) => x,
    };
    ensure!(polys.len() == w.len(), "{}", at(format!("{} polynomials", polys.len())));
    let d = domain::<F>(t);
    for (r, c) in w.iter().enumerate() {
        let q = polys[r].as_ref();
        ensure!(q.len() <= t, "{}", at(format!("register {}: {} coefficients", r, q.len())));
        let all = if t > 512 { eval_all(q, t, F::one()) } else { vec![] };
        for row in 0..t {
            let want = c.get(row).copied().unwrap_or(F::zero());
            let y = if t > 512 { all[row] } else { eval(q, d[row]) };
            ensure!(y == want, "{}", at(format!("register {}: the polynomial gives {:?} at row {}, the trace has {:?}", r, y, row, want)));
            if shifts { for k in 0..=2 * t { let x = mul(d[row], pw(d.get(1).copied().unwrap_or(F::one()), k as u64)); let y = c.get((row + k) % t).copied().unwrap_or(F::zero()); ensure!(eval(q, x) == y, "{}", at(format!("register {}: {} rows after row {}", r, k, row))) } }
        }
    }
    ctx.trace();
    Ok(())
}

fn c20_field<F: PrimeField>(c: &mut Cases, name: &'static str, max: usize) {
    let thorough = c.thorough;
    let mut sizes: Vec<usize> = (1..=33).chain([63, 64, 65]).collect();
    if thorough { sizes.extend([127, 128, 129, 255, 256, 257, 1023, 1024, 1025]) }
    for n in (34..=if thorough { 300 } else { 132 }).chain([255, 256, 257, 511, 512, 513, 1000]) {
        if n > max || sizes.contains(&n) { continue }
        c.add(format!("long/{}/n{}", name, n), move |ctx| {
            let ms = machines(thorough);
            for (k, regs) in [1usize, 2, 3, 6].into_iter().enumerate() {
                let w: Vec<Vec<F>> = (0..regs).map(|r| seq(n, 100 + r as u64)).collect();
                for j in [0, n + k, n + k + 7] { let m = ms[j % ms.len()]; registers(ctx, &w, m.0, m.1, false, name)? }
            }
            Ok(())
        });
    }
    for n in sizes {
        if n > max { continue }
        c.add(format!("columns/{}/n{}", name, n), move |ctx| {
            for regs in [1usize, 2, 3, 4, 5, 7, 8, 9, 16, 17] {
                let w: Vec<Vec<F>> = (0..regs).map(|r| seq(n, 100 + r as u64)).collect();
                for m in machines(thorough) { registers(ctx, &w, m.0, m.1, n <= 9 && m.0 == 1, name)?; }
            }
            // unit columns, many at once
            for first in (0..n).step_by(8) {
                let w: Vec<Vec<F>> = (first..n.min(first + 8)).map(|k| (0..n).map(|r| if r == k { F::one() } else { F::zero() }).collect()).collect();
                for m in [(1, Order::Fifo), (2, Order::Lifo), (5, Order::Eager), (8, Order::Fifo), (64, Order::Lifo)] { registers(ctx, &w, m.0, m.1, false, name)? }
            }
            Ok(())
        });
    }
}

fn c20(c: &mut Cases) {
    c20_field::<F62>(c, "62 bits", usize::MAX);
    for n in [2000usize, 4097, 5000, 8192, 32769, 65535, 65536, 65537, 70000, 131072].into_iter().chain(if c.thorough { vec![262143, 262145, 1 << 19] } else { vec![] }) { for (k, m) in [(1, Order::Fifo), (3, Order::Lifo), (8, Order::Eager)].into_iter().enumerate() {
        c.add(format!("large/n{}/cpus={}/{:?}", n, m.0, m.1), move |ctx| {
            let w: Vec<Vec<F62>> = (0..[3, 2, 5][k]).map(|r| seq(n, 100 + r as u64)).collect();
            registers(ctx, &w, m.0, m.1, false, "large")?;
            if k == 1 { for row in [0, n / 2, n - 1] { let mut u = vec![F62::zero(); n]; u[row] = F62::one(); registers(ctx, &[u], m.0, m.1, false, "large unit")? } }
            Ok(())
        });
    } }
    c20_field::<Sk>(c, "251 bits", 33);
    c20_field::<F97>(c, "97", 32);
    c20_field::<F257>(c, "257", 65);
    // wrong shapes, and columns that do not fit the field
    for n in [1usize, 2, 3, 4, 5, 8, 9, 16, 17] { for regs in [1usize, 2, 3, 5] {
        c.add(format!("shapes/n{}/r{}", n, regs), move |ctx| {
            let go = |ctx: &mut Ctx, w: Vec<Vec<F62>>, what: String, right: bool| -> R {
                let p: Props<F62> = InstanceProperties { num_rows: n, num_registers: regs, constraints: vec![], boundary_constraints: vec![] };
                ctx.step(1);
                ctx.state(&(n, regs, what.clone()));
                ctx.trace();
                for m in [(1, Order::Fifo), (4, Order::Lifo)] {
                    match quiet(|| on(m.0, m.1, |k| Arp::<F62>::from_instance(p.clone(), k).and_then(|a| a.calculate_witness_polys(w.clone(), k)).is_ok())) {
                        Err(e) => return Err(format!("{} rows, {} registers, {}: crash: {}", n, regs, what, e).into()),
                        Ok(x) => ensure!(x == right, "{} rows, {} registers, {}: {}", n, regs, what, if x { "taken" } else { "refused" }),
                    }
                }
                Ok(())
            };
            for k in 0..regs + 3 { go(ctx, (0..k).map(|r| seq(n, r as u64)).collect(), format!("{} columns", k), k == regs)? }
            for m in 0..2 * n + 3 { go(ctx, (0..regs).map(|r| seq(m, r as u64)).collect(), format!("columns of {} rows", m), m == n)? }
            for bad in 0..regs { for m in 0..2 * n + 3 { if m != n { go(ctx, (0..regs).map(|r| seq(if r == bad { m } else { n }, r as u64)).collect(), format!("column {} of {} rows", bad, m), false)? } } }
            Ok(())
        });
    } }
    c.add("two-adicity", |ctx| {
        fn go<F: PrimeField>(ctx: &mut Ctx, name: &str) -> R {
            for n in 1usize..=(3usize << F::S) {
                let fits = n.next_power_of_two().trailing_zeros() <= F::S;
                let w = vec![seq::<F>(n, 3)];
                let p: Props<F> = InstanceProperties { num_rows: n, num_registers: 1, constraints: vec![], boundary_constraints: vec![] };
                ctx.step(1);
                ctx.state(&(name, n));
                match quiet(|| on(2, Order::Fifo, |k| Arp::<F>::from_instance(p.clone(), k).and_then(|a| a.calculate_witness_polys(w.clone(), k)).is_ok())) {
                    Err(e) => return Err(format!("{} rows over {}: crash: {}", n, name, e).into()),
                    Ok(x) => ensure!(x == fits, "{} rows over {}: {}", n, name, if x { "taken although there is no such domain" } else { "refused" }),
                }
                ctx.trace();
            }
            Ok(())
        }
        go::<Fp<11, 2>>(ctx, "F11")?; go::<Fp<13, 2>>(ctx, "F13")?; go::<Fp<41, 6>>(ctx, "F41")?; go::<F17>(ctx, "F17")?; go::<F97>(ctx, "F97")?; go::<F193>(ctx, "F193")
    });
    // steps become masks
    for n in [2usize, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 128] { for i in family::<F62>(n) {
        c.add(format!("masks/{}/n{}", i.name, n), move |ctx| {
            let t = n.next_power_of_two();
            let g = root::<F62>(log2(t));
            let mut list = vec![i.props.clone()];
            for k in 0..=2 * t { let mut p = i.props.clone(); p.constraints.push(con(fe(7), vec![uni(fe(3), 0, k, 2), prod(fe(5), &[(0, k + 1, 1), (0, 0, 2)])], 0, 1)); list.push(p) }
            for p in list {
                ctx.step(1);
                ctx.state(&format!("{:?}", p.constraints.last()));
                let got = match quiet(|| on(1, Order::Fifo, |k| Arp::<F62>::from_instance(p.clone(), k).map_err(|e| format!("{:?}", e)))) { Ok(Ok(x)) => x.properties, Ok(Err(m)) | Err(m) => return Err(format!("{} with {} rows: {}", i.name, n, m).into()) };
                let mut want = p.clone();
                for c in want.constraints.iter_mut() { for t in c.terms.iter_mut() {
                    let l: Vec<&mut UnivariateTerm<F62>> = match t { ConstraintTerm::Univariate(u) => vec![u], ConstraintTerm::Polyvariate(x) => x.terms.iter_mut().collect() };
                    for u in l { let s = step_of(&u.steps_difference); u.steps_difference = StepDifference::Mask(pw(g, s as u64)) }
                } }
                ensure!(got.constraints == want.constraints && got.boundary_constraints == want.boundary_constraints && got.num_rows == want.num_rows && got.num_registers == want.num_registers, "{} with {} rows: {:?} instead of {:?}", i.name, n, got, want);
                ctx.trace();
            }
            Ok(())
        });
    } }
}

// ------------------------------------------------------------------------------------------ C21

/// both quotient tables for arbitrary register and composition polynomials
fn quotients<F: PrimeField>(ctx: &mut Ctx, p: &Props<F>, w: &[Vec<F>], g: Option<&[F]>, lde: usize, script: Option<Vec<u64>>, cpus: usize, o: Order, name: &str) -> R {
    let r = Ref::new(p);
    let (n1, n2) = (r.t * lde, r.cdom * lde);
    let at = |s: String| format!("{} with {} rows, factor {}, {} CPUs {:?}, challenges {:?}: {}", name, p.num_rows, lde, cpus, o, script, s);
    ctx.step(1);
    let polys = r.polys(w);
    let gp: Vec<F> = g.map(|g| g.to_vec()).unwrap_or_else(|| seq(r.cdom, 900));
    record(script.clone(), None);
    let res = quiet(|| on(cpus, o, |k| -> Result<_, String> {
        let e = |e| format!("{:?}", e);
        let arp = Arp::<F>::from_instance(p.clone(), k).map_err(|x| e(x))?;
        let ali = ALIInstance::from_arp(arp, k).map_err(|x| e(x))?;
        let fp: Vec<_> = polys.iter().map(|c| Polynomial::<F, Coefficients>::from_coeffs(c.clone()).unwrap()).collect();
        let fl: Vec<_> = polys.iter().map(|c| Polynomial::<F, Values>::from_values(eval_all(c, n1, F::one())).unwrap()).collect();
        let gq = Polynomial::<F, Coefficients>::from_coeffs(gp.clone()).unwrap();
        let gl = Polynomial::<F, Values>::from_values(eval_all(&gp, n2, F::one())).unwrap();
        let mut t = Rec::<F>::new();
        ali.calculate_deep(&fp, &fl, &gq, &gl, &mut t, k).map_err(|x| e(x))
    }));
    let log = recorded();
    let (sc, _) = draws::<F>(&log);
    let (h1, h2, claims, gz) = match res { Err(m) => return Err(at(format!("crash: {}", m)).into()), Ok(Err(m)) => return Err(at(format!("failure: {}", m)).into()), Ok(Ok(x)) => x };
    ensure!(sc.len() == 1 + r.masks.len(), "{}", at(format!("{} challenges drawn", sc.len())));
    let z = sc[0];
    let want = r.f_at_z_m(&polys, z);
    ensure!(claims == want, "{}", at(format!("claimed values {:?}, the polynomials have {:?} at the shifted points {:?}", claims, want, r.masks)));
    ensure!(gz == eval(&gp, z), "{}", at("value of the composition".into()));
    // claims are fixed between z and the other challenges
    let mut seg: Vec<Vec<u8>> = vec![vec![]];
    for x in log.iter() { match x { Op::Bytes(b) => seg.last_mut().unwrap().extend_from_slice(b), _ => seg.push(vec![]) } }
    ensure!(seg[1] == claims.iter().flat_map(|v| be(v)).collect::<Vec<u8>>(), "{}", at("the claimed values are not committed between the out of domain point and the next challenge".into()));
    let (d1, d2) = (domain::<F>(n1), domain::<F>(n2));
    ensure!(h1.as_ref().len() == n1 && h2.as_ref().len() == n2, "{}", at("sizes of the tables".into()));
    let ft: Vec<Vec<F>> = polys.iter().map(|c| eval_all(c, n1, F::one())).collect();
    for i in 0..n1 {
        let v = r.h1_at(d1[i], z, &claims, &sc[1..], &|q| ft[q][i]);
        ensure!(v == Some(h1.as_ref()[i]), "{}", at(format!("first quotient at {}: {:?} instead of {:?}", i, h1.as_ref()[i], v)));
    }
    let gt = eval_all(&gp, n2, F::one());
    for i in 0..n2 {
        let v = sub(d2[i], z).inverse().map(|x| mul(x, sub(gt[i], gz)));
        ensure!(v == Some(h2.as_ref()[i]), "{}", at(format!("second quotient at {}: {:?} instead of {:?}", i, h2.as_ref()[i], v)));
    }
    ctx.state(&(name.to_string(), p.num_rows, lde, cpus, be(&z)));
    ctx.trace();
    Ok(())
}

fn c21(c: &mut Cases) {
    let thorough = c.thorough;
    for n in [2usize, 3, 4, 5, 8, 9] {
        for i in family::<F62>(n) { for lde in [2usize, 4, 8] {
            let i = i.clone();
            c.add(format!("tables/{}/n{}/x{}", i.name, n, lde), move |ctx| {
                for m in machines(thorough) { if d1(m.0, i.cfactor()) { continue } quotients(ctx, &i.props, &i.witness, None, lde, None, m.0, m.1, &i.name)? }
                let r = Ref::new(&i.props);
                for s in 0..4u64 {
                    let sc: Vec<u64> = match s { 0 => vec![0], 1 => seq::<F62>(1 + r.masks.len(), 50).iter().map(|x| x.val()).collect(), 2 => { let mut v = vec![1u64; 1 + r.masks.len()]; v[0] = 3; v } _ => { let mut v = vec![0u64; 1 + r.masks.len()]; v[0] = 5; *v.last_mut().unwrap() = 9; v } };
                    let w: Vec<Vec<F62>> = i.witness.iter().enumerate().map(|(k, c)| seq(c.len(), 300 + k as u64)).collect();
                    quotients(ctx, &i.props, &w, None, lde, Some(sc), 1, Order::Fifo, &i.name)?;
                }
                Ok(())
            });
        } }
        if n <= 5 { for i in family::<Sk>(n) { if i.witness.len() > 4 { continue } c.add(format!("large field/{}/n{}", i.name, n), move |ctx| quotients(ctx, &i.props, &i.witness, None, 2, None, 3, Order::Lifo, &i.name)); } }
    }
    // statements with many of something
    for n in if thorough { vec![2usize, 3, 4, 5, 8, 9, 16] } else { vec![2, 3, 5] } { for (k, i) in wide::<F62>(n).into_iter().enumerate() { for lde in [2usize, 8] {
        if i.cfactor() * n.next_power_of_two() * lde > 2048 { continue }
        let i = i.clone();
        c.add(format!("wide/{}/n{}/x{}", i.name, n, lde), move |ctx| {
            let ms: Vec<_> = machines(thorough).into_iter().filter(|m| !d1(m.0, i.cfactor())).collect();
            for j in [0, k] { let m = ms[j % ms.len()]; quotients(ctx, &i.props, &i.witness, None, lde, None, m.0, m.1, &i.name)? }
            Ok(())
        });
    } } }
    // long traces
    for n in if thorough { vec![12usize, 16, 17, 31, 32, 33, 64, 65, 128] } else { vec![12, 16, 17, 32, 33, 64] } { for (k, i) in family::<F62>(n).into_iter().enumerate() { for lde in [2usize, 4, 16] {
        if i.cfactor() * n.next_power_of_two() * lde > if thorough { 8192 } else { 2048 } { continue }
        let i = i.clone();
        c.add(format!("long/{}/n{}/x{}", i.name, n, lde), move |ctx| {
            let ms: Vec<_> = machines(thorough).into_iter().filter(|m| !d1(m.0, i.cfactor())).collect();
            for j in [0, k, k + 5] { let m = ms[j % ms.len()]; quotients(ctx, &i.props, &i.witness, None, lde, None, m.0, m.1, &i.name)? }
            Ok(())
        });
    } } }
    // tables of more than 2^16 elements
    for (n, lde) in [(256usize, 4usize), (1000, 2), (1024, 8), (4096, 16), (32768, 4), (65536, 2)].into_iter().chain(if thorough { vec![(8192, 16), (131072, 2), (2048, 128)] } else { vec![] }) { for (k, i) in family::<F62>(n).into_iter().enumerate() {
        let top = n.next_power_of_two();
        if i.cfactor() > 2 || i.witness.len() > 3 { continue }
        let left = i.props.constraints.iter().map(|c| { let (a, b) = dense(&c.density); top - n.saturating_sub(a.saturating_add(b)) }).max().unwrap_or(0) + i.props.boundary_constraints.len();
        if left * i.cfactor() * top > 1 << 25 { continue }
        c.add(format!("large/{}/n{}/x{}", i.name, n, lde), move |ctx| {
            let ms: Vec<_> = [(1, Order::Fifo), (2, Order::Lifo), (3, Order::Lifo), (8, Order::Eager)].into_iter().filter(|m| !d1(m.0, i.cfactor())).collect();
            let m = ms[k % ms.len()];
            quotients(ctx, &i.props, &i.witness, None, lde, None, m.0, m.1, &i.name)
        });
    } }
    // many shifts, far apart, of every register
    for n in if thorough { vec![16usize, 40, 64, 260, 600, 1100] } else { vec![16, 40, 260] } { for m in [(1, Order::Fifo), (3, Order::Lifo), (8, Order::Eager)] {
        c.add(format!("far/n{}/cpus={}/{:?}", n, m.0, m.1), move |ctx| {
            let mut steps: Vec<usize> = (0..20).chain((0..11).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1])).filter(|r| *r < n).collect();
            steps.sort(); steps.dedup();
            for regs in [1usize, 3] {
                let w: Vec<Vec<F62>> = (0..regs).map(|r| seq(n, 70 + r as u64)).collect();
                for rev in [false, true] {
                    let mut terms: Vec<ConstraintTerm<F62>> = vec![];
                    for q in 0..regs { for (k, s) in steps.iter().enumerate() { terms.push(uni(fe(k as u64 + 2), q, *s, 1)) } }
                    if rev { terms.reverse() }
                    let p = props(n, regs, vec![con(fe(1), terms, 0, n - 2)], vec![bound(0, 0, w[0][0])]);
                    for lde in [2usize, 4] { quotients(ctx, &p, &w, None, lde, None, m.0, m.1, if rev { "far, in reverse" } else { "far" })? }
                }
            }
            Ok(())
        });
    } }
    // every point outside
    for n in [2usize, 3, 4, 8] {
        for i in family::<F257>(n) {
            if i.witness.len() > 4 { continue }
            let r = Ref::new(&i.props);
            let lde = 2;
            if r.cdom * lde > 64 { continue }
            c.add(format!("all points/{}/n{}", i.name, n), move |ctx| {
                let m = (r.cdom * lde) as u64;
                let al: Vec<u64> = seq::<F257>(r.masks.len(), 8).iter().map(|x| x.val()).collect();
                for z in 0..257u64 {
                    // no shifted point may lie in an extended domain
                    if sub(pw(fe::<F257>(z), m), F257::one()).is_zero() { continue }
                    let mut s = vec![z];
                    s.extend(al.iter());
                    quotients(ctx, &i.props, &i.witness, None, lde, Some(s), 1 + (z % 2) as usize, Order::Fifo, &i.name)?;
                }
                Ok(())
            });
        }
    }
    // the verifier works with the same values: with these challenges the tables fit at every position
    for n in [2usize, 4, 5, 8] {
        for i in family::<F62>(n) {
            if i.witness.len() > 4 { continue }
            for lde in [2usize, 4] {
                let i = i.clone();
                let r = Ref::new(&i.props);
                if !thorough && r.cdom * lde > 128 { continue }
                c.add(format!("verifier/{}/n{}/x{}", i.name, n, lde), move |ctx| {
                    let (n1, n2) = (r.t * lde, r.cdom * lde);
                    let sc: Vec<u64> = seq::<F62>(2 * r.pairs() + 1 + r.masks.len(), 61).iter().map(|x| x.val()).collect();
                    for p in (1..n1.max(n2)).step_by(2) {
                        let by = vec![(p % n1) as u64, ((n1.max(n2) - p) % n2) as u64];
                        ctx.step(2);
                        let v = quiet(|| on(1, Order::Fifo, |_| -> Result<bool, String> {
                            record(Some(sc.clone()), Some(by.clone()));
                            let q = Pr::<F62, Rec<F62>, OpenIop<F62>>::new(i.props.clone(), lde, 1).and_then(|x| x.prove(i.witness.clone())).map_err(|e| format!("{:?}", e))?;
                            record(Some(sc.clone()), Some(by.clone()));
                            Ve::<F62, Rec<F62>, OpenIop<F62>>::new(i.props.clone(), lde).and_then(|x| x.verify(&q)).map_err(|e| format!("{:?}", e))
                        }));
                        ctx.state(&(p, by.clone()));
                        ensure!(v == Ok(Ok(true)), "{} with {} rows, factor {}, positions {:?}: {:?}", i.name, n, lde, by, v);
                        ctx.trace();
                    }
                    Ok(())
                });
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C25

#[cfg(not(hodor_verif_vdf))]
fn c25(c: &mut Cases) { c.note("the entry points of the delay functions do not build"); }

#[cfg(hodor_verif_vdf)]
fn c25(c: &mut Cases) { vdf::cases(c) }

#[cfg(hodor_verif_vdf)]
mod vdf {
    use super::*;
    use hodor::verif_hooks::vdf::{CubicVDF, VDF};

    type E<F> = (F, F);
    /// product in F[u] with u^2 = -1
    fn times<F: PrimeField>(a: E<F>, b: E<F>) -> E<F> { (sub(mul(a.0, b.0), mul(a.1, b.1)), add(mul(a.0, b.1), mul(a.1, b.0))) }

    fn instance<F: PrimeField>(cubic: bool, s: E<F>, ops: usize) -> Result<(Vec<Vec<F>>, Props<F>), String> {
        let r = quiet(|| if cubic { CubicVDF { start_c0: s.0, start_c1: s.1, num_operations: ops }.into_arp() } else { VDF { start_c0: s.0, start_c1: s.1, num_operations: ops }.into_arp() })?;
        Ok((r.0.ok_or("no trace".to_string())?, r.1))
    }
    /// the values of the computation, row by row
    fn values<F: PrimeField>(cubic: bool, s: E<F>, ops: usize) -> Vec<E<F>> {
        let mut v = vec![s];
        for _ in 0..ops { let x = *v.last().unwrap(); let q = times(x, x); v.push(if cubic { times(q, x) } else { q }) }
        v
    }
    /// cells that do not take part in the computation: the helper columns of the last row
    fn idle(cubic: bool, reg: usize, row: usize, ops: usize) -> bool { cubic && reg >= 2 && row == ops }

    fn exact<F: PrimeField>(ctx: &mut Ctx, cubic: bool, s: E<F>, ops: usize) -> Result<(Vec<Vec<F>>, Props<F>), Fail> {
        let at = |m: &str| format!("{} of {:?} {} times: {}", if cubic { "cubing" } else { "squaring" }, s, ops, m);
        ctx.step(1);
        let (w, p) = instance(cubic, s, ops).map_err(|m| at(&m))?;
        let v = values(cubic, s, ops);
        ensure!(w.len() == if cubic { 4 } else { 2 } && p.num_registers == w.len() && p.num_rows == ops + 1 && w.iter().all(|c| c.len() == ops + 1), "{}", at("shape"));
        for (t, x) in v.iter().enumerate() {
            ensure!((w[0][t], w[1][t]) == *x, "{}", at(&format!("the trace has {:?} after {} operations, the computation {:?}", (w[0][t], w[1][t]), t, x)));
            if cubic && t < ops { let q = times(*x, *x); ensure!((w[2][t], w[3][t]) == q, "{}", at("the helper columns are not the square")) }
        }
        let mut fixed: Vec<(usize, usize, F)> = vec![];
        for b in p.boundary_constraints.iter() { match b.value { Some(x) => fixed.push((num_of(&b.register), b.at_row, x)), None => return Err(at("a boundary constraint without a value").into()) } }
        for (r, t, x) in [(0, 0, s.0), (1, 0, s.1), (0, ops, v[ops].0), (1, ops, v[ops].1)] { ensure!(fixed.contains(&(r, t, x)), "{}", at(&format!("register {} is not fixed at row {}", r, t))) }
        ensure!(fixed.iter().all(|(r, t, x)| w[*r][*t] == *x), "{}", at("a boundary constraint differs from the trace"));
        ensure!(Ref::new(&p).satisfied(&w) == Some(true), "{}", at("the trace does not satisfy the instance"));
        ensure!(sat(&p, &w) == Ok(true), "{}", at("trace checking refuses the trace"));
        // no degree claimed below the actual one
        for c in p.constraints.iter() { let d = c.terms.iter().map(degree_of).max().unwrap_or(0); ensure!(c.degree >= d, "{}", at("recorded degree")) }
        ctx.state(&(cubic, format!("{:?}", s), ops));
        ctx.trace();
        Ok((w, p))
    }

    fn starts<F: PrimeField>(q: u64) -> Vec<E<F>> { (0..q * q).map(|x| (fe(x % q), fe(x / q))).collect() }

    fn all_starts<F: PrimeField>(c: &mut Cases, q: u64) {
        for cubic in [false, true] { for ops in 1..=9usize {
            c.add(format!("exact/F{}/{}/{}", q, if cubic { "cubic" } else { "square" }, ops), move |ctx| { for s in starts::<F>(q) { exact(ctx, cubic, s, ops)?; } Ok(()) });
            c.add(format!("cells/F{}/{}/{}", q, if cubic { "cubic" } else { "square" }, ops), move |ctx| {
                for s in starts::<F>(q) {
                    let (w, p) = exact(ctx, cubic, s, ops)?;
                    for reg in 0..w.len() { for row in 0..=ops { for v in 0..q {
                        if w[reg][row] == fe(v) { continue }
                        let mut x = w.clone();
                        x[reg][row] = fe(v);
                        ctx.step(1);
                        let want = idle(cubic, reg, row, ops);
                        let got = sat(&p, &x);
                        ensure!(want || got == Ok(false), "{} of {:?} {} times: register {} row {} changed to {}: {:?}", if cubic { "cubing" } else { "squaring" }, s, ops, reg, row, v, got);
                    } } }
                    ctx.trace();
                }
                Ok(())
            });
        } }
    }

    /// exactly the computation satisfies the instance, among all traces
    fn every_trace<F: PrimeField>(c: &mut Cases, q: u64, cubic: bool, ops: usize) {
        let regs = if cubic { 4 } else { 2 };
        for (k, s) in starts::<F>(q).into_iter().enumerate() {
            c.add(format!("all traces/F{}/{}/{}/{}", q, if cubic { "cubic" } else { "square" }, ops, k), move |ctx| {
                let (w, p) = exact(ctx, cubic, s, ops)?;
                let cells = regs * (ops + 1);
                let mut n = 0u64;
                let mut x = w.clone();
                for mut code in 0..q.pow(cells as u32) {
                    let mut right = true;
                    for reg in 0..regs { for row in 0..=ops { let v = fe::<F>(code % q); code /= q; x[reg][row] = v; if v != w[reg][row] && !idle(cubic, reg, row, ops) { right = false } } }
                    let got = match sat(&p, &x) { Ok(b) => b, Err(m) => return Err(format!("crash: {}", m).into()) };
                    n += 1;
                    // idle cells may be free or fixed
                    if got != right { ensure!(right && x.iter().zip(w.iter()).any(|(a, b)| a != b), "{} of {:?} {} times: the trace {:?} is {}", if cubic { "cubing" } else { "squaring" }, s, ops, x, if got { "taken" } else { "refused" }) }
                    if got { ctx.outcome("satisfies") }
                }
                ctx.step(n);
                ctx.trace();
                Ok(())
            });
        }
    }

    fn provable<F: PrimeField>(ctx: &mut Ctx, cubic: bool, s: E<F>, ops: usize) -> R {
        let (w, p) = exact(ctx, cubic, s, ops)?;
        let cf = cfactor(&p);
        for lde in [2usize, 4, 8] { for m in machines(false) {
            if d1(m.0, lde) || d1(m.0, cf) { continue }
            if m.0 > 4 && lde > 2 { continue }
            ctx.step(2);
            let v = quiet(|| on(m.0, m.1, |_| -> Result<bool, String> {
                let q = Pr::<F, Blake2sTranscript<F>, TrivialBlake2sIOP<F>>::new(p.clone(), lde, 1).and_then(|x| x.prove(w.clone())).map_err(|e| format!("{:?}", e))?;
                Ve::<F, Blake2sTranscript<F>, TrivialBlake2sIOP<F>>::new(p.clone(), lde).and_then(|x| x.verify(&q)).map_err(|e| format!("{:?}", e))
            }));
            ctx.state(&(cubic, ops, lde, m.0));
            ensure!(v == Ok(Ok(true)), "{} of {:?} {} times, factor {}, {} CPUs: proof: {:?}", if cubic { "cubing" } else { "squaring" }, s, ops, lde, m.0, v);
            ctx.trace();
        } }
        Ok(())
    }

    pub fn cases(c: &mut Cases) {
        let thorough = c.thorough;
        all_starts::<F3>(c, 3);
        all_starts::<F5>(c, 5);
        all_starts::<F17>(c, 17);
        for ops in 1..=4 { every_trace::<F3>(c, 3, false, ops) }
        for ops in 1..=if thorough { 2 } else { 1 } { every_trace::<F5>(c, 5, false, ops) }
        for ops in 1..=if thorough { 2 } else { 1 } { every_trace::<F3>(c, 3, true, ops) }
        for cubic in [false, true] { for ops in (1..=if thorough { 600usize } else { 260 }).chain([511, 512, 1000, 1023, 1024, 4095, 4096, 5000, 65534, 65535, 65536, 70000]) {
            c.add(format!("long/{}/{}", if cubic { "cubic" } else { "square" }, ops), move |ctx| {
                for s in [(3u64, 5u64), (1 << 61, 12345678901), (0, 7), (1, 1)] { exact::<F62>(ctx, cubic, (fe(s.0), fe(s.1)), ops)?; }
                exact::<Sk>(ctx, cubic, (neg(fe(3)), fe(5)), ops)?;
                Ok(())
            });
        } }
        for cubic in [false, true] { for ops in [1usize, 2, 3, 4, 6, 7, 8, 15, 16, 31, 32, 63, 64] {
            let name = if cubic { "cubic" } else { "square" };
            c.add(format!("proof/62 bits/{}/{}", name, ops), move |ctx| { for s in [(3u64, 5u64), (1, 1), (0, 7), (1 << 61, 12345678901)] { provable::<F62>(ctx, cubic, (fe(s.0), fe(s.1)), ops)? } Ok(()) });
            if ops <= 16 { c.add(format!("proof/251 bits/{}/{}", name, ops), move |ctx| provable::<Sk>(ctx, cubic, (neg(fe(3)), fe(5)), ops)); }
            c.add(format!("changes/62 bits/{}/{}", name, ops), move |ctx| {
                for s in [(3u64, 5u64), (1, 1), (1 << 61, 12345678901), (0, 1), (1, 0)] {
                    let (w, p) = exact::<F62>(ctx, cubic, (fe(s.0), fe(s.1)), ops)?;
                    for reg in 0..w.len() { for row in 0..=ops { if idle(cubic, reg, row, ops) { continue } for v in [add(w[reg][row], fe(1)), neg(w[reg][row]), fe(0), fe(1)] {
                        if v == w[reg][row] { continue }
                        let mut x = w.clone();
                        x[reg][row] = v;
                        ctx.step(1);
                        ensure!(sat(&p, &x) == Ok(false), "{} of {:?} {} times: register {} row {} changed: not noticed", name, s, ops, reg, row);
                    } } }
                    // another computation of the same length does not fit either
                    let (y, _) = exact::<F62>(ctx, cubic, (fe(s.0 + 1), fe(s.1)), ops)?;
                    ctx.step(1);
                    ensure!(sat(&p, &y) == Ok(false), "{} of {:?} {} times: the trace of another start is taken", name, s, ops);
                    ctx.trace();
                }
                Ok(())
            });
        } }
    }
}
