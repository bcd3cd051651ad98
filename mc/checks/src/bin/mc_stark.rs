//! C01–C05 whole proofs, C18 trace checking, C19–C21 the polynomials of the prover, C25 delay functions
#![allow(dead_code, unused_imports)]
use checks::field::*;
use checks::open::*;
use checks::refs::*;
use checks::stark::*;
use checks::*;
use ff::{Field, PrimeField};
use hodor::air::*;
use hodor::ali::per_register::*;
use hodor::ali::*;
use hodor::arp::*;
use hodor::fri::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::*;
use hodor::polynomials::*;
use hodor::transcript::*;
use mcrt::engine::*;
use mcrt::ensure;
use mcrt::sched::Order;
use std::collections::HashSet;

type Sk = bigf::stark::Fr;
type Tb<F> = Blake2sTranscript<F>;
type Real<F> = TrivialBlake2sIOP<F>;

fn main() {
    mcrt::engine::main(&[
        Property { id: "C01", build: c01, space: "all instances of the family (about 50 systems: constraint degrees 0..9, 16 and 17, repeated factors, equal terms, zero coefficients, 1..17 registers, steps up to the whole trace, late starts, spans, products, constants, no transitions, no boundaries, constraints that cover nothing) x row counts 2..33 (further ones up to 65536 with fewer systems, where their cost allows) x extension factors 2..16 (some 32..1024) x every final size x CPU counts 1..100 x three task orders (thinned); provers and verifiers used several times in every order of satisfied and violated traces up to the stated length; over a 257-element field, every out-of-domain point with given challenges, and every query position; the 251-bit field and the harness's own commitment on samples of the same lists",
            assumptions: &["configurations under the recorded finding D1 are left out, apart from the listed ones", "a challenge that lies in the evaluation domain may make the prover fail (its probability is negligible for cryptographic fields)"] },
        Property { id: "C02", build: c02, space: "for every instance of the family with 2..9 rows, every single cell with six other values, every pair of cells with three changes (up to 5 rows), column edits (rotation, reversal, scaling, exchange, zero; up to 33 rows), every single edit of the statement (constants, coefficients, powers, steps, registers, densities, boundaries, sizes); a verifier used again after accepted and rejected proofs; the real openings as well as the transparent ones; provers that deviate: 4 compositions x 5 kinds of claims x 3 kinds of low-degree parts x satisfying and violating traces x every query position and drawn ones, judged by the definition of the protocol",
            assumptions: &["the plain verifier in stark.rs is the definition", "the hash is free of collisions and random challenges do not meet the exceptional set (62-bit field)", "the protocol makes one query per low-degree test, so a proof may be accepted with the probability that the definition gives; the checks compare with the definition position by position"] },
        Property { id: "C03", build: c03, space: "for every instance of the small family with 2..8 rows x factors x final sizes x {drawn, given} challenges: every single change of every component (every bit of every value and hash of the smallest proofs, removal, doubling, exchange, replacement by foreign material, every position, every path element, all size fields with 64-bit boundary values), pairs of changes on the smallest proofs",
            assumptions: &["the plain verifier in stark.rs is the definition", "the hash is free of collisions", "a proof whose low-degree part is consistently given with another number of rounds is another valid proof and not a change of a single component"] },
        Property { id: "C04", build: c04, space: "every vector of a proof object with lengths 0..3x and 64-bit boundary numbers in every numeric field, pairs and triples of such changes, all 64 bits of every position, path lengths 0..130; for the harness's openings and for those of the code; code under test compiled with overflow checks",
            assumptions: &["a verifier is created for a well-formed statement"] },
        Property { id: "C05", build: c05, space: "for every instance with 2..16 rows x factors x final sizes: every message of the protocol changed in every position (two bits of every commitment, every claimed value, every layer, every final coefficient, and exchanges), every single edit of the statement, and every folding round with six other challenges at every position; each of the challenges of the run is compared",
            assumptions: &["the hash is free of collisions"] },
    ])
}

// ----------------------------------------------------------------------------------------- runs

fn prove<F: PrimeField, T: Transcript<F>, I: IOP<F>>(props: &Props<F>, w: &[Vec<F>], lde: usize, out: usize, cpus: usize, o: Order) -> Result<Result<Proof<F, T, I>, String>, String> {
    quiet(|| on(cpus, o, |_| {
        let p = Pr::<F, T, I>::new(props.clone(), lde, out).map_err(|e| format!("{:?}", e))?;
        p.prove(w.to_vec()).map_err(|e| format!("{:?}", e))
    }))
}

const ROWS: [usize; 16] = [2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 31, 32, 33];

/// numbers of CPUs outside the recorded finding D1
fn counts<F: PrimeField>(i: &Inst<F>, lde: usize) -> Vec<(usize, Order)> { machines(false).into_iter().filter(|m| !i.d1(m.0, lde)).collect() }

fn honest<F: PrimeField, T: Transcript<F>, I: IOP<F>>(ctx: &mut Ctx, i: &Inst<F>, lde: usize, out: usize, cpus: usize, o: Order) -> R {
    let what = || format!("{} with {} rows, factor {}, final size {}, {} CPUs {:?}", i.name, i.props.num_rows, lde, out, cpus, o);
    ctx.step(2);
    record(None, None);
    let p = match prove::<F, T, I>(&i.props, &i.witness, lde, out, cpus, o) {
        Err(m) => return Err(format!("{}: the prover crashes: {}", what(), m).into()),
        Ok(Err(m)) => return Err(format!("{}: the prover fails: {}", what(), m).into()),
        Ok(Ok(p)) => p,
    };
    record(None, None);
    match verify::<F, T, I>(&i.props, lde, &p) {
        Err(m) => return Err(format!("{}: the verifier crashes: {}", what(), m).into()),
        Ok(Err(m)) => return Err(format!("{}: the verifier fails: {}", what(), m).into()),
        Ok(Ok(false)) => return Err(format!("{}: rejected", what()).into()),
        Ok(Ok(true)) => {}
    }
    ctx.outcome("accepted");
    ctx.state(&(lde, out, cpus, i.name.clone(), p.f_at_z_m.iter().map(|x| be(x)).collect::<Vec<_>>()));
    ctx.trace();
    Ok(())
}

/// long traces, and long ones with large constraint domains
fn c01_long(c: &mut Cases) {
    let mut rows = vec![34usize, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];
    if c.thorough { rows.extend([511, 512, 513, 1000, 1024, 1025, 2047, 2048, 4096]) } else { rows.extend([512, 1024]) }
    for n in rows { for (k, i) in family::<F62>(n).into_iter().enumerate() {
        let t = n.next_power_of_two();
        for lde in [2usize, 8] {
            if i.cfactor() * lde * t > if c.thorough { 1 << 16 } else { 1 << 12 } { continue }
            let i = i.clone();
            let outs: Vec<usize> = if c.thorough { (0..).map(|e| 1 << e).take_while(|o| *o < t).collect() } else { vec![1usize << k % t.trailing_zeros() as usize, t / 2] };
            c.add(format!("long/{}/n{}/x{}", i.name, n, lde), move |ctx| {
                ensure!(Ref::new(&i.props).satisfied(&i.witness) == Some(true), "harness: the instance {} is not satisfied", i.name);
                let ms = counts(&i, lde);
                for (j, out) in outs.iter().enumerate() { let m = ms[(k + j) % ms.len()]; honest::<F62, Tb<F62>, Real<F62>>(ctx, &i, lde, *out, m.0, m.1)? }
                Ok(())
            });
        }
    } }
}

/// traces and extended domains of more than 2^16 elements
fn c01_large(c: &mut Cases) {
    let t = c.thorough;
    for (n, lde) in [(3000usize, 2usize), (4095, 16), (8192, 4), (32767, 2), (32768, 4), (65536, 2)].into_iter().chain(if t { vec![(5000, 16), (9000, 4), (16384, 8), (65535, 4), (131072, 2), (1 << 18, 2)] } else { vec![] }) {
        for (k, i) in family::<F62>(n).into_iter().enumerate() {
            let top = n.next_power_of_two();
            if i.cfactor() > if n > 1 << 14 { 2 } else { 4 } || i.witness.len() > 3 { continue }
            // the code multiplies out the rows without the constraint, at every point
            let left = i.props.constraints.iter().map(|c| { let (a, b) = dense(&c.density); top - n.saturating_sub(a.saturating_add(b)) }).max().unwrap_or(0) + i.props.boundary_constraints.len();
            if left * i.cfactor() * top > if t { 1 << 28 } else { 1 << 25 } { continue }
            c.add(format!("large/{}/n{}/x{}", i.name, n, lde), move |ctx| {
                let ms: Vec<_> = [(1, Order::Fifo), (2, Order::Lifo), (3, Order::Lifo), (8, Order::Eager), (4, Order::Fifo)].into_iter().filter(|m| !d1(m.0, i.cfactor()) && !d1(m.0, lde)).collect();
                let m = ms[(k + n) % ms.len()];
                honest::<F62, Tb<F62>, Real<F62>>(ctx, &i, lde, [1, top / 2, 8][k % 3], m.0, m.1)
            });
        }
    }
}

/// statements with many of something
fn c01_wide(c: &mut Cases) {
    for n in if c.thorough { vec![2usize, 3, 4, 5, 8, 9, 16, 17, 33] } else { vec![2, 3, 5, 8] } { for (k, i) in wide::<F62>(n).into_iter().enumerate() {
        for lde in if c.thorough { vec![2usize, 4, 8, 16] } else { vec![2, 8] } {
            if i.witness.len() > 100 && lde > 2 && !c.thorough { continue }
            let (i, t) = (i.clone(), n.next_power_of_two());
            c.add(format!("wide/{}/n{}/x{}", i.name, n, lde), move |ctx| {
                ensure!(Ref::new(&i.props).satisfied(&i.witness) == Some(true), "harness: the instance {} is not satisfied", i.name);
                let ms = counts(&i, lde);
                let m = ms[k % ms.len()];
                honest::<F62, Tb<F62>, Real<F62>>(ctx, &i, lde, 1, 1, Order::Fifo)?;
                honest::<F62, Tb<F62>, Real<F62>>(ctx, &i, lde, t / 2, m.0, m.1)
            });
        }
    } }
}

/// large extension factors
fn c01_factors(c: &mut Cases) {
    for n in if c.thorough { vec![2usize, 3, 4, 5, 8, 9, 16, 17] } else { vec![2, 3, 4, 8] } { for (k, i) in family::<F62>(n).into_iter().enumerate() {
        for lde in [32usize, 64, 128, 256, 512, 1024] {
            let t = n.next_power_of_two();
            if i.cfactor() * lde * t * i.witness.len().max(2) > if c.thorough { 1 << 15 } else { 1 << 12 } { continue }
            let i = i.clone();
            c.add(format!("factors/{}/n{}/x{}", i.name, n, lde), move |ctx| {
                let ms = counts(&i, lde);
                let m = if ms.is_empty() { (1, Order::Fifo) } else { ms[(k + lde) % ms.len()] };
                honest::<F62, Tb<F62>, Real<F62>>(ctx, &i, lde, 1, 1, Order::Fifo)?;
                if t > 2 { honest::<F62, Tb<F62>, Real<F62>>(ctx, &i, lde, t / 2, m.0, m.1)? }
                Ok(())
            });
        }
    } }
}

fn c01(c: &mut Cases) {
    histories(c, Judged::Honest);
    c01_factors(c);
    c01_more(c);
    c01_long(c);
    c01_wide(c);
    c01_large(c);
    for n in ROWS {
        for (k, i) in family::<F62>(n).into_iter().enumerate() {
            for lde in [2usize, 4, 8, 16] {
                let i = i.clone();
                c.add(format!("honest/{}/n{}/x{}", i.name, n, lde), move |ctx| {
                    ensure!(Ref::new(&i.props).satisfied(&i.witness) == Some(true), "harness: the instance {} is not satisfied", i.name);
                    let t = n.next_power_of_two();
                    let ms = counts(&i, lde);
                    let mut out = 1;
                    let mut j = k;
                    while out < t {
                        honest::<F62, Tb<F62>, Real<F62>>(ctx, &i, lde, out, 1, Order::Fifo)?;
                        let m = ms[j % ms.len()];
                        j += 1;
                        honest::<F62, Tb<F62>, Real<F62>>(ctx, &i, lde, out, m.0, m.1)?;
                        out *= 2;
                    }
                    ctx.sample(|| format!("{:?}", i.props.constraints.first()));
                    Ok(())
                });
            }
        }
    }
}

/// a proof with given challenges, over a field small enough for all out-of-domain points
fn honest_scripted<F: PrimeField>(ctx: &mut Ctx, i: &Inst<F>, lde: usize, out: usize, sc: Vec<u64>, by: Vec<u64>) -> R {
    let r = Ref::new(&i.props);
    let what = || format!("{} with {} rows, factor {}, final size {}, challenges {:?}, positions {:?}", i.name, i.props.num_rows, lde, out, sc, by);
    let inside = sub(pw(fe::<F>(sc[2 * r.pairs()]), (r.cdom * lde) as u64), F::one()).is_zero();
    ctx.step(2);
    ctx.state(&(lde, out, sc.clone(), by.clone()));
    record(Some(sc.clone()), Some(by.clone()));
    let p = match prove::<F, Rec<F>, OpenIop<F>>(&i.props, &i.witness, lde, out, 1, Order::Fifo) {
        Err(m) => return Err(format!("{}: the prover crashes: {}", what(), m).into()),
        Ok(Err(_)) if inside => { ctx.outcome("the point lies in the domain: no proof"); return Ok(()) }
        Ok(Err(m)) => return Err(format!("{}: the prover fails: {}", what(), m).into()),
        Ok(Ok(p)) => p,
    };
    record(Some(sc.clone()), Some(by.clone()));
    match verify::<F, Rec<F>, OpenIop<F>>(&i.props, lde, &p) {
        Err(m) => return Err(format!("{}: the verifier crashes: {}", what(), m).into()),
        Ok(Ok(true)) => ctx.outcome("accepted"),
        Ok(_) if inside => ctx.outcome("the point lies in the domain: not accepted"),
        Ok(v) => return Err(format!("{}: {:?}", what(), v).into()),
    }
    ctx.trace();
    Ok(())
}

fn c01_more(c: &mut Cases) {
    let thorough = c.thorough;
    // every out-of-domain point
    for n in [2usize, 3, 4, 5, 8] { for i in family::<F257>(n) { for lde in [2usize, 4] {
        let r = Ref::new(&i.props);
        if i.witness.len() > 4 || r.cdom * lde > 64 { continue }
        let i = i.clone();
        c.add(format!("points/{}/n{}/x{}", i.name, n, lde), move |ctx| {
            let k = r.pairs();
            for z in 0..257u64 {
                let mut sc: Vec<u64> = seq::<F257>(2 * k + 1 + r.masks.len(), z).iter().map(|x| x.val()).collect();
                sc[2 * k] = z;
                honest_scripted(ctx, &i, lde, 1, sc, vec![z, 257 - z])?;
            }
            Ok(())
        });
    } } }
    // every position, every final size
    for n in [2usize, 4, 5, 8, 16] { for i in family::<F62>(n) { for lde in [2usize, 4] {
        let r = Ref::new(&i.props);
        if i.witness.len() > 4 || r.cdom * lde > if thorough { 512 } else { 128 } { continue }
        let i = i.clone();
        c.add(format!("positions/{}/n{}/x{}", i.name, n, lde), move |ctx| {
            let sc: Vec<u64> = seq::<F62>(2 * r.pairs() + 1 + r.masks.len(), 5).iter().map(|x| x.val()).collect();
            let m = r.cdom * lde;
            let mut out = 1;
            while out < r.t { for p in 0..m { if p % 2 == 0 && p > 2 && p < m - 2 { continue } honest_scripted(ctx, &i, lde, out, sc.clone(), vec![p as u64, (m - p) as u64])? } out *= 2 }
            Ok(())
        });
    } } }
    // special challenges
    for n in [2usize, 4, 5] { for i in small_family(n) {
        c.add(format!("challenges/{}/n{}", i.name, n), move |ctx| {
            let r = Ref::new(&i.props);
            let l = 2 * r.pairs() + 1 + r.masks.len();
            for v in [0u64, 1, 2, 3] { for at in 0..l { let mut sc: Vec<u64> = seq::<F62>(l, 6).iter().map(|x| x.val()).collect(); if at == 2 * r.pairs() { sc[at] = [0, 3, 6, 12][v as usize] } else { sc[at] = v } honest_scripted(ctx, &i, 2, 1, sc, vec![1, 3])? } }
            for v in [0u64, 1] { let mut sc = vec![v; l]; sc[2 * r.pairs()] = 6; honest_scripted(ctx, &i, 2, 1, sc, vec![3, 1])? }
            Ok(())
        });
    } }
    // another field, another commitment scheme
    for n in [2usize, 3, 5, 8, 16] {
        for i in family::<Sk>(n) { if i.witness.len() > 4 && n > 5 { continue } c.add(format!("251 bits/{}/n{}", i.name, n), move |ctx| {
            for (lde, out, m) in [(2usize, 1usize, (1, Order::Fifo)), (4, 1, (3, Order::Lifo)), (8, 2, (6, Order::Eager)), (16, 1, (12, Order::Fifo))] {
                if out >= n.next_power_of_two() || i.d1(m.0, lde) { continue }
                honest::<Sk, Tb<Sk>, Real<Sk>>(ctx, &i, lde, out, m.0, m.1)?;
            }
            Ok(())
        }); }
        for i in family::<F62>(n) { c.add(format!("commitment/{}/n{}", i.name, n), move |ctx| honest::<F62, Rec<F62>, OpenIop<F62>>(ctx, &i, 4, 1, 1, Order::Fifo)); }
    }
    // the recorded finding: these runs extend with several cosets per worker
    for (name, n, lde, cpus) in D1_RUNS {
        c.add(format!("D1/{}/n{}/x{}/{} CPUs", name, n, lde, cpus), move |ctx| {
            let i = family::<F62>(n).into_iter().find(|i| i.name == name).unwrap();
            ctx.step(2);
            let got = match prove::<F62, Tb<F62>, Real<F62>>(&i.props, &i.witness, lde, 1, cpus, Order::Fifo) {
                Ok(Ok(p)) => match verify::<F62, Tb<F62>, Real<F62>>(&i.props, lde, &p) { Ok(Ok(b)) => b, e => return Err(format!("{:?}", e).into()) },
                e => return Err(format!("{:?}", e.map(|x| x.map(|_| ()))).into()),
            };
            if !got { ctx.finding(&format!("D1/{}/n{}/x{}/{}", name, n, lde, cpus), "D1: an honest proof is rejected") }
            ctx.outcome(if got { "accepted" } else { "D1: rejected" });
            Ok(())
        });
    }
}
const D1_RUNS: [(&str, usize, usize, usize); 4] = [("fibonacci", 4, 4, 2), ("fibonacci", 8, 16, 8), ("products", 4, 8, 2), ("power2", 16, 8, 4)];

// ------------------------------------------------------------------------------------ histories

#[derive(Clone, Copy, PartialEq)]
enum Judged { Honest, Unsatisfied, Changed, Malformed }

/// one prover and one verifier used over and over: every history of proofs and verifications up to the depth (and one long
/// history with every triple in it); what is judged at every step is whatever `judged` names
fn histories(c: &mut Cases, judged: Judged) {
    let thorough = c.thorough;
    let systems = |n: usize| -> Vec<Inst<F62>> { small_family(n).into_iter().filter(|i| thorough || ["fibonacci", "products", "mixture", "power3", "no transitions", "nothing but constants", "no boundaries"].contains(&i.name.as_str())).collect() };
    for n in if thorough { vec![2usize, 4, 5, 8] } else { vec![4, 5] } { for i in systems(n) { for (cpus, o) in [(1usize, Order::Fifo), (3, Order::Lifo)] {
        if i.d1(cpus, 4) { continue }
        let i = i.clone();
        c.add(format!("histories/{}/n{}/cpus={}", i.name, n, cpus), move |ctx| {
            let (lde, out) = (4usize, 1usize);
            let r = Ref::new(&i.props);
            let (p, _) = base(&i, lde, out, &None)?;
            let mut bad = None;
            'find: for reg in 0..i.witness.len() { for row in (0..n).rev() { let mut w = i.witness.clone(); w[reg][row] = add(w[reg][row], fe(5)); if r.satisfied(&w) == Some(false) { bad = Some(w); break 'find } } }
            let mut witnesses = vec![(i.witness.clone(), Some(true)), (i.witness[1..].to_vec(), None)];
            if let Some(w) = &bad { witnesses.push((w.clone(), Some(false))) }
            let mut short = i.witness.clone(); short[0].pop(); witnesses.push((short, None));
            let mut proofs: Vec<(&str, Judged, P<F62>)> = vec![("the honest proof", Judged::Honest, copy(&p))];
            if let Some(w) = &bad { let j = Inst { name: i.name.clone(), props: i.props.clone(), witness: w.clone() }; proofs.push(("the proof of an unsatisfying trace", Judged::Unsatisfied, base(&j, lde, out, &None)?.0)) }
            let mut put = |s: &'static str, j: Judged, f: &dyn Fn(&mut P<F62>)| { let mut q = copy(&p); f(&mut q); proofs.push((s, j, q)) };
            put("a changed register commitment", Judged::Changed, &|q| q.f_iop_roots[0] = flip(&q.f_iop_roots[0]));
            put("a changed composition commitment", Judged::Changed, &|q| q.g_iop_root = flip(&q.g_iop_root));
            put("a changed opening", Judged::Changed, &|q| q.f_queries[0].value = add(q.f_queries[0].value, F62::one()));
            put("a changed path", Judged::Changed, &|q| q.g_query.path[0] = flip(&q.g_query.path[0]));
            put("a changed final coefficient", Judged::Changed, &|q| q.fri_proof_h1.final_coefficients[0] = add(q.fri_proof_h1.final_coefficients[0], F62::one()));
            put("a changed opening of the low degree test", Judged::Changed, &|q| q.fri_proof_h2.queries[1].value = add(q.fri_proof_h2.queries[1].value, F62::one()));
            if !p.f_at_z_m.is_empty() { put("a changed claim", Judged::Changed, &|q| q.f_at_z_m[0] = add(q.f_at_z_m[0], F62::one())) }
            put("a proof without openings", Judged::Malformed, &|q| q.f_queries.clear());
            put("a proof without layers", Judged::Malformed, &|q| { q.fri_proof_h1.roots.clear(); q.h1_iop_roots.clear() });
            put("a proof without claims or coefficients", Judged::Malformed, &|q| { q.f_at_z_m.pop(); q.fri_proof_h2.final_coefficients.clear() });
            let (nw, k) = (witnesses.len(), witnesses.len() + proofs.len());
            let name = |x: usize| if x < nw { format!("proof of trace {}", x) } else { proofs[x - nw].0.to_string() };
            // the histories
            let mut runs: Vec<Vec<usize>> = vec![];
            for a in 0..k { for b in 0..k { if thorough { for x in 0..k { runs.push(vec![a, b, x]) } } else { runs.push(vec![a, b]) } } }
            // every triple, in one run: a cyclic sequence with each word of three letters once
            fn db(t: usize, p: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
                if t > 3 { if 3 % p == 0 { out.extend_from_slice(&a[1..=p]) } return }
                a[t] = a[t - p]; db(t + 1, p, k, a, out);
                for j in a[t - p] + 1..k { a[t] = j; db(t + 1, t, k, a, out) }
            }
            let mut long = vec![]; db(1, 1, k, &mut vec![0; 5], &mut long);
            let (x, y) = (long[0], long[1]); long.extend([x, y]);
            runs.push(long);
            record(None, None);
            let made: Option<P<F62>> = match quiet(|| on(1, Order::Fifo, |_| Pr::<F62, Rec<F62>, OpenIop<F62>>::new(i.props.clone(), lde, out).and_then(|p| p.prove(i.witness.clone())))) { Ok(Ok(p)) => Some(p), _ => None };
            for run in runs {
                let at = |k: usize| format!("{} with {} rows: after {}: {}", i.name, n, if k > 8 { format!("... {}", name(run[k - 1])) } else { run[..k].iter().map(|x| name(*x)).collect::<Vec<_>>().join(", ") }, name(run[k]));
                let done = quiet(|| on(cpus, o, |_| -> R {
                    let pr = Pr::<F62, Rec<F62>, OpenIop<F62>>::new(i.props.clone(), lde, out).map_err(|e| Fail::from(format!("{:?}", e)))?;
                    let ve = Ve::<F62, Rec<F62>, OpenIop<F62>>::new(i.props.clone(), lde).map_err(|e| Fail::from(format!("{:?}", e)))?;
                    for (step, x) in run.iter().enumerate() {
                        record(None, None);
                        ctx.step(1);
                        if *x < nw {
                            let q = pr.prove(witnesses[*x].0.clone());
                            match (witnesses[*x].1, q, judged) {
                                (Some(true), Ok(q), Judged::Honest) => {
                                    ensure!(made.as_ref().map_or(true, |m| same(m, &q)), "{}: another proof than a fresh prover's", at(step));
                                    record(None, None);
                                    ensure!(ve.verify(&q).ok() == Some(true), "{}: the honest proof is not accepted", at(step));
                                }
                                (Some(true), Err(e), Judged::Honest) => return Err(format!("{}: no proof: {:?}", at(step), e).into()),
                                (Some(false), Ok(q), Judged::Unsatisfied) => { record(None, None); ensure!(ve.verify(&q).ok() != Some(true), "{}: accepted", at(step)) }
                                _ => {}
                            }
                        } else {
                            let (_, j, q) = &proofs[*x - nw];
                            let v = ve.verify(q).ok() == Some(true);
                            if *j == judged { ensure!(v == (*j == Judged::Honest), "{}: accepted: {}", at(step), v) }
                            ctx.outcome(if v { "accepted" } else { "not accepted" });
                        }
                    }
                    Ok(())
                }));
                match done { Ok(x) => x?, Err(m) => return Err(format!("{} with {} rows: a history of {} operations crashes: {}", i.name, n, run.len(), m).into()) }
                ctx.state(&(cpus, run.clone()));
                ctx.trace();
            }
            Ok(())
        });
    } } }
}

// ------------------------------------------------------------------------------------------ C02

type Scripted<F> = Rec<F>;


/// what the code says about the proof of this trace, against what it has to say
fn judge_trace(ctx: &mut Ctx, i: &Inst<F62>, r: &Ref<F62>, w: &[Vec<F62>], lde: usize, out: usize, m: (usize, Order), what: &dyn Fn() -> String) -> R {
    let want = r.satisfied(w);
    ctx.state(&(i.name.clone(), w.iter().map(|c| c.iter().map(|x| x.val()).collect::<Vec<_>>()).collect::<Vec<_>>(), lde, out));
    ctx.step(1);
    let p = match prove::<F62, Tb<F62>, Real<F62>>(&i.props, w, lde, out, m.0, m.1) {
        Err(e) => return Err(format!("{}: the prover crashes: {}", what(), e).into()),
        Ok(Err(e)) => { ensure!(want != Some(true), "{}: the trace satisfies the instance, but the prover fails: {}", what(), e); ctx.outcome("no proof"); return Ok(()) }
        Ok(Ok(p)) => p,
    };
    let got = accepts(ctx, &i.props, lde, &p, what)?;
    ctx.trace();
    match (want, got) {
        (Some(true), false) => Err(format!("{}: the trace satisfies the instance, but its proof is not accepted", what()).into()),
        (Some(false), true) => Err(format!("{}: the trace violates the instance, but its proof is accepted", what()).into()),
        _ => Ok(()),
    }
}

fn c02(c: &mut Cases) {
    histories(c, Judged::Unsatisfied);
    let thorough = c.thorough;
    // every single cell, several ways
    for n in [2usize, 3, 4, 5, 8, 9] {
        for i in family::<F62>(n) {
            if n > 5 && i.witness.len() > 8 { continue }
            c.add(format!("cells/{}/n{}", i.name, n), move |ctx| {
                let r = Ref::new(&i.props);
                for reg in 0..i.witness.len() { for row in 0..n {
                    let old = i.witness[reg][row];
                    let news = [add(old, F62::one()), neg(old), F62::zero(), i.witness[reg][(row + 1) % n], fe::<F62>(0x1234_5678_9abc_def1), pw(root::<F62>(10), 3)];
                    for (k, v) in news.iter().enumerate() {
                        if *v == old { continue }
                        let mut w = i.witness.clone();
                        w[reg][row] = *v;
                        let lde = [2usize, 4, 2, 8, 2, 16][k];
                        let ms = counts(&i, lde);
                        let out = [1, 2][k % 2].min(n.next_power_of_two() / 2);
                        judge_trace(ctx, &i, &r, &w, lde, out, ms[(reg + row + k) % ms.len()], &|| format!("{} with {} rows, cell ({},{}) {:?} instead of {:?}, factor {}", i.name, n, reg, row, v, old, lde))?;
                    }
                } }
                ctx.sample(|| format!("{:?}", i.witness));
                Ok(())
            });
        }
    }
    // statements with many of something: cells of the first, the last and some other registers
    for n in if thorough { vec![2usize, 3, 4, 5, 8, 9] } else { vec![2, 5] } {
        for i in wide::<F62>(n) { c.add(format!("wide/{}/n{}", i.name, n), move |ctx| {
            let r = Ref::new(&i.props);
            let w = i.witness.len();
            let mut k = 0;
            for reg in (0..w).filter(|x| w <= 7 || thorough || [0, 1, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, w / 2, w - 2, w - 1].contains(x)) { for row in 0..n {
                let mut x = i.witness.clone();
                x[reg][row].add_assign(&[F62::one(), fe(0x1234_5678_9abc_def1)][k % 2]);
                let ms = counts(&i, 2);
                k += 1;
                judge_trace(ctx, &i, &r, &x, 2, 1, ms[k % ms.len()], &|| format!("{} with {} rows, cell ({},{}) changed", i.name, n, reg, row))?;
            } }
            Ok(())
        }); }
    }
    // every pair of cells
    for n in [2usize, 3, 4, 5] {
        for i in family::<F62>(n) {
            if i.witness.len() > 4 { continue }
            c.add(format!("pairs/{}/n{}", i.name, n), move |ctx| {
                let r = Ref::new(&i.props);
                let cells: Vec<(usize, usize)> = (0..i.witness.len()).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
                for a in 0..cells.len() { for b in 0..a { for k in 0..3 {
                    let mut w = i.witness.clone();
                    let ((ra, ta), (rb, tb)) = (cells[a], cells[b]);
                    match k { 0 => { let x = w[ra][ta]; w[ra][ta] = w[rb][tb]; w[rb][tb] = x }
                              1 => { w[ra][ta].add_assign(&F62::one()); w[rb][tb].sub_assign(&F62::one()) }
                              _ => { w[ra][ta].add_assign(&fe(7)); w[rb][tb].add_assign(&fe(1 << 40)) } }
                    if w == i.witness { continue }
                    judge_trace(ctx, &i, &r, &w, 2, 1, (1, Order::Fifo), &|| format!("{} with {} rows, cells {:?} and {:?} changed ({})", i.name, n, cells[a], cells[b], k))?;
                } } }
                Ok(())
            });
        }
    }
    // whole columns: another run of the same system, shifted, scaled, exchanged, constant
    for n in ROWS {
        for i in family::<F62>(n) {
            c.add(format!("columns/{}/n{}", i.name, n), move |ctx| {
                let r = Ref::new(&i.props);
                let regs = i.witness.len();
                let mut list: Vec<(String, Vec<Vec<F62>>)> = vec![];
                let mut edit = |s: String, f: &dyn Fn(&mut Vec<Vec<F62>>)| { let mut w = i.witness.clone(); f(&mut w); if w != i.witness { list.push((s, w)) } };
                for a in 0..regs {
                    edit(format!("column {} rotated", a), &|w| w[a].rotate_left(1));
                    edit(format!("column {} reversed", a), &|w| w[a].reverse());
                    edit(format!("column {} doubled", a), &|w| for x in w[a].iter_mut() { x.double() });
                    edit(format!("column {} zero", a), &|w| for x in w[a].iter_mut() { *x = F62::zero() });
                    edit(format!("column {} constant", a), &|w| { let y = w[a][0]; for x in w[a].iter_mut() { *x = y } });
                    for b in 0..a { edit(format!("columns {} and {} exchanged", a, b), &|w| w.swap(a, b)) }
                }
                edit("all zero".into(), &|w| for c in w.iter_mut() { for x in c.iter_mut() { *x = F62::zero() } });
                edit("all rotated".into(), &|w| for c in w.iter_mut() { c.rotate_right(1) });
                for (k, (s, w)) in list.iter().enumerate() {
                    let lde = [2usize, 4][k % 2];
                    let ms = counts(&i, lde);
                    judge_trace(ctx, &i, &r, w, lde, 1, ms[k % ms.len()], &|| format!("{} with {} rows, {}", i.name, n, s))?;
                }
                Ok(())
            });
        }
    }
    // another statement
    for n in [2usize, 4, 5, 8] {
        for i in family::<F62>(n) {
            if i.witness.len() > 4 { continue }
            c.add(format!("statements/{}/n{}", i.name, n), move |ctx| {
                let p0 = match prove::<F62, Tb<F62>, Real<F62>>(&i.props, &i.witness, 4, 1, 1, Order::Fifo) { Ok(Ok(p)) => p, e => return Err(format!("{} with {} rows: no proof: {:?}", i.name, n, e.err()).into()) };
                for (s, props) in edits(&i.props) {
                    let j = Inst { name: i.name.clone(), props, witness: i.witness.clone() };
                    let r = Ref::new(&j.props);
                    if j.witness[0].len() != j.props.num_rows || j.witness.len() != j.props.num_registers { continue }
                    let sat = r.satisfied(&j.witness);
                    ctx.state(&(i.name.clone(), s.clone(), n));
                    let what = || format!("{} with {} rows, statement changed: {}", i.name, n, s);
                    // the proof for the old statement
                    let got = accepts(ctx, &j.props, 4, &p0, &what)?;
                    ensure!(!(got && sat == Some(false)), "{}: the proof for the old statement is accepted for the new one, which the trace violates", what());
                    // a proof for the new one
                    judge_trace(ctx, &j, &r, &j.witness, 2, 1, (1, Order::Fifo), &what)?;
                }
                Ok(())
            });
        }
    }
    for (n, lde) in [(2usize, 2usize), (4, 4), (8, 2), (16, 2), (64, 2), (256, 2)].into_iter().chain(if thorough { vec![(32, 8), (128, 4), (1024, 2), (2048, 2)] } else { vec![] }) {
        for i in small_family(n) {
            if n > 8 && !thorough && !["power1", "power3", "bits", "fibonacci", "mixed"].iter().any(|x| i.name.starts_with(x)) { continue }
            c.add(format!("one place/{}/n{}/x{}", i.name, n, lde), move |ctx| one_place(ctx, &i, lde));
        }
    }
    // provers that do not follow the protocol
    for n in [2usize, 4, 5, 8] {
        for i in small_family(n) {
            for lde in [2usize, 4, 8] {
                if !thorough && n * lde > 32 { continue }
                let i = i.clone();
                if !thorough && Ref::new(&i.props).cdom * lde > 64 { continue }
                for gk in Composition::ALL { let i = i.clone(); c.add(format!("deviating prover/{}/n{}/x{}/{:?}", i.name, n, lde, gk), move |ctx| deviations(ctx, &i, lde, gk)); }
            }
        }
    }
}

/// provers that follow the protocol up to one place: a layer of a low degree proof, one opening
fn one_place(ctx: &mut Ctx, i: &Inst<F62>, lde: usize) -> R {
    let r = Ref::new(&i.props);
    let (n1, n2) = (r.t * lde, r.cdom * lde);
    let n = [n1, n2];
    let mut w = i.witness.clone();
    let rows = i.props.num_rows;
    w[0][rows / 2].add_assign(&fe(5));
    if r.satisfied(&w) != Some(false) { w[0][0].add_assign(&fe(5)) }
    if r.satisfied(&w) != Some(false) { ctx.outcome("not violated"); return Ok(()) }
    let sizes = [honest_sizes(r.t, lde, 1), honest_sizes(r.cdom, lde, 1)];
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Do { Layer(usize, usize), Partner(usize, usize), Value(usize), Composition, Factor(usize, usize), Degree(usize, usize) }
    let mut list = vec![Do::Composition];
    for part in 0..2 { for k in 1..=sizes[part].rounds { list.push(Do::Layer(part, k)) } for k in 0..sizes[part].rounds { list.push(Do::Partner(part, k)) } }
    for reg in 0..w.len() { list.push(Do::Value(reg)) }
    let mut f = 1;
    while f <= 4 * lde { if f != lde { for part in 0..2 { if n[part] / lde * f < 1 << 14 { list.push(Do::Factor(part, f)) } } } f *= 2 }
    for part in 0..2 { if n[part] <= 64 { for d in [n[part] / lde / 2, n[part] / lde * 2, n[part]] { if d > 0 { list.push(Do::Degree(part, d)) } } } }
    list.dedup();
    for what_to in list {
        // the first part is not of low degree if a claim is wrong, the second one if the composition does not fit the claims
        let first = match what_to { Do::Layer(p, _) | Do::Partner(p, _) | Do::Factor(p, _) | Do::Degree(p, _) => p == 0, Do::Value(_) => true, Do::Composition => false };
        let mut jump = [None, None];
        let mut low = [Low::Fold, Low::Fold];
        let mut sizes = sizes;
        match what_to { Do::Factor(p, f) => { sizes[p].factor = f; low[p] = Low::Resize }
            Do::Degree(p, d) => { sizes[p] = honest_sizes(d, lde, 1); low[p] = Low::Stretch } Do::Layer(p, k) => jump[p] = Some(k), Do::Partner(p, k) => jump[p] = Some(k + 1), Do::Value(_) => low[0] = Low::Zero, Do::Composition => low[1] = Low::Zero }
        for composition in [Composition::Honest, Composition::Zero] { for script in [None, script_for(&r, 23, 1, 1)] {
            let plan = Plan { polys: r.polys(&w), composition, claims: if first { Claims::FitComposition } else { Claims::True }, low, sizes, jump, shape: None };
            let what = |p: Option<[usize; 2]>| format!("{} with {} rows, factor {}, violating trace, composition {:?}, deviating in {:?}, positions {:?}", i.name, rows, lde, composition, what_to, p);
            let mut listen = |p: &P<F62>| -> Result<Vec<Op>, Fail> { rec(&script); accepts(ctx, &i.props, lde, p, &|| what(None))?; Ok(recorded()) };
            let a = match attack(&r, lde, &plan, &mut listen)? { Some(a) => a, None => { ctx.outcome("impossible"); continue } };
            let places: Vec<[usize; 2]> = match &script {
                None => vec![[position(&a.drawn[0], n[0], lde), position(&a.drawn[1], n[1], lde)]],
                Some(_) => (0..4).map(|q| [0, 1].map(|p| (q * n[p] / 4 + 1 + 2 * q) % n[p] | 1)).collect(),
            };
            for at in places {
                let s = script.as_ref().map(|s| (s.0.clone(), vec![at[0] as u64, at[1] as u64]));
                let p = match what_to {
                    Do::Layer(..) | Do::Factor(..) | Do::Degree(..) => Some(a.open(at)),
                    Do::Partner(p, k) => a.forge_layer(at, p, k),
                    Do::Composition | Do::Value(_) => {
                        rec(&s);
                        accepts(ctx, &i.props, lde, &a.open(at), &|| what(None))?;
                        let sc = draws::<F62>(&recorded()).0;
                        let k = r.pairs();
                        if sc.len() < 2 * k + 1 + r.masks.len() { ctx.outcome("impossible"); continue }
                        let ch: Vec<(F62, F62)> = (0..k).map(|i| (sc[2 * i], sc[2 * i + 1])).collect();
                        let z = sc[2 * k];
                        let x = pw(root::<F62>(log2(n1)), at[0] as u64);
                        let q = a.open(at);
                        match what_to {
                            Do::Value(reg) => a.forge_f(at, reg, &|v| r.h1_at(x, z, &q.f_at_z_m, &sc[2 * k + 1..], &|i| v[i])),
                            _ => r.g_from_claims(z, &ch, &q.f_at_z_m).map(|gz| a.forge_g(at, gz)),
                        }
                    }
                };
                let p = match p { Some(p) => p, None => { ctx.outcome("impossible"); continue } };
                judge(ctx, &r, lde, &p, &s, &|| what(Some(at)))?;
                ctx.state(&(format!("{:?}", what_to), at, s.is_some(), composition as usize));
            }
        } }
    }
    Ok(())
}

/// every combination of what a prover may do differently, for a satisfying and violating traces, at every position
fn deviations(ctx: &mut Ctx, i: &Inst<F62>, lde: usize, gk: Composition) -> R {
    let r = Ref::new(&i.props);
    let (n1, n2) = (r.t * lde, r.cdom * lde);
    let n = i.props.num_rows;
    let mut traces = vec![("satisfying".to_string(), i.witness.clone())];
    for (a, b) in [(0, 0), (0, n - 1), (i.witness.len() - 1, n / 2)] { let mut w = i.witness.clone(); w[a][b].add_assign(&fe(5)); if r.satisfied(&w) == Some(false) { traces.push((format!("cell ({},{}) changed", a, b), w)) } }
    for (tn, w) in traces.iter() {
        let good = r.satisfied(w) == Some(true);
        for ck in Claims::ALL { for lk in Low::ALL {
            for script in [None, script_for(&r, 11, 1, 1)] {
                let plan = Plan { polys: r.polys(w), composition: gk, claims: ck, low: [lk, lk], sizes: [honest_sizes(r.t, lde, 1), honest_sizes(r.cdom, lde, 1)], jump: [None, None], shape: None };
                let what = |p: Option<[usize; 2]>| format!("{} with {} rows, factor {}, {}, composition {:?}, claims {:?}, low degree part {:?}, positions {:?}", i.name, n, lde, tn, gk, ck, lk, p);
                let mut listen = |p: &P<F62>| -> Result<Vec<Op>, Fail> { rec(&script); accepts(ctx, &i.props, lde, p, &|| what(None))?; Ok(recorded()) };
                let a = match attack(&r, lde, &plan, &mut listen)? { Some(a) => a, None => { ctx.outcome("impossible"); continue } };
                let honest = good && gk == Composition::Honest && ck == Claims::True && lk == Low::Fold;
                let places: Vec<[usize; 2]> = match &script {
                    None => vec![[position(&a.drawn[0], n1, lde), position(&a.drawn[1], n2, lde)]],
                    Some(_) => (1..n1.max(n2)).step_by(2).map(|p| [p % n1, (n1.max(n2) - p) % n2]).collect(),
                };
                for at in places {
                    let s = script.as_ref().map(|s| (s.0.clone(), vec![at[0] as u64, at[1] as u64]));
                    let got = judge(ctx, &r, lde, &a.open(at), &s, &|| what(Some(at)))?;
                    ctx.state(&(tn, gk as usize, ck as usize, lk as usize, at, s.is_some()));
                    ensure!(got || !honest, "{}: an independent prover's honest proof is not accepted", what(Some(at)));
                }
            }
        } }
    }
    Ok(())
}

/// all single edits of a statement that leave registers and rows in range
fn edits<F: PrimeField>(p: &Props<F>) -> Vec<(String, Props<F>)> {
    let mut v: Vec<(String, Props<F>)> = vec![];
    let mut e = |s: String, f: &dyn Fn(&mut Props<F>)| { let mut q = p.clone(); f(&mut q); v.push((s, q)) };
    let one = F::one();
    let regs = p.num_registers;
    fn term<'a, F: PrimeField>(q: &'a mut Props<F>, c: usize, t: usize, u: usize) -> &'a mut UnivariateTerm<F> {
        match &mut q.constraints[c].terms[t] { ConstraintTerm::Univariate(x) => x, ConstraintTerm::Polyvariate(x) => &mut x.terms[u] }
    }
    fn redegree<F: PrimeField>(q: &mut Props<F>) {
        for c in q.constraints.iter_mut() {
            for t in c.terms.iter_mut() { let d = degree_of(t); if let ConstraintTerm::Polyvariate(x) = t { x.total_degree = d } }
            c.degree = c.terms.iter().map(degree_of).max().unwrap_or(0);
        }
    }
    for c in 0..p.constraints.len() {
        e(format!("constant of constraint {}", c), &|q| q.constraints[c].constant_term.add_assign(&one));
        e(format!("constraint {} removed", c), &|q| { q.constraints.remove(c); });
        e(format!("constraint {} twice", c), &|q| { let x = q.constraints[c].clone(); q.constraints.push(x) });
        if c > 0 && p.constraints[c] != p.constraints[c - 1] { e(format!("constraints {} and {} exchanged", c, c - 1), &|q| q.constraints.swap(c, c - 1)) }
        e(format!("degree of constraint {} recorded larger", c), &|q| q.constraints[c].degree += 1);
        let (st, sp) = dense(&p.constraints[c].density);
        let set = |q: &mut Props<F>, st: usize, sp: usize| q.constraints[c].density = ConstraintDensity::Dense(DenseConstraint { start_at: st, span: sp });
        e(format!("constraint {} starts later", c), &|q| set(q, st + 1, sp));
        if st > 0 { e(format!("constraint {} starts earlier", c), &|q| set(q, st - 1, sp)) }
        e(format!("constraint {} ends earlier", c), &|q| set(q, st, sp + 1));
        if sp > 0 { e(format!("constraint {} ends later", c), &|q| set(q, st, sp - 1)) }
        for t in 0..p.constraints[c].terms.len() {
            e(format!("term {} of constraint {} removed", t, c), &|q| { q.constraints[c].terms.remove(t); redegree(q) });
            if let ConstraintTerm::Polyvariate(x) = &p.constraints[c].terms[t] {
                e(format!("coefficient of product {} of constraint {}", t, c), &|q| if let ConstraintTerm::Polyvariate(x) = &mut q.constraints[c].terms[t] { x.coeff.add_assign(&one) });
                for u in 0..x.terms.len() { e(format!("factor {} of product {} of constraint {} removed", u, t, c), &|q| { if let ConstraintTerm::Polyvariate(x) = &mut q.constraints[c].terms[t] { x.terms.remove(u); } redegree(q) }) }
            }
            let k = match &p.constraints[c].terms[t] { ConstraintTerm::Univariate(_) => 1, ConstraintTerm::Polyvariate(x) => x.terms.len() };
            for u in 0..k {
                let at = format!("factor {} of term {} of constraint {}", u, t, c);
                e(format!("{}: coefficient", at), &|q| term(q, c, t, u).coeff.add_assign(&one));
                e(format!("{}: coefficient negated", at), &|q| term(q, c, t, u).coeff.negate());
                e(format!("{}: power", at), &|q| { term(q, c, t, u).power += 1; redegree(q) });
                let (r0, s0) = { let mut q = p.clone(); let x = term(&mut q, c, t, u); (num_of(&x.register), step_of(&x.steps_difference)) };
                if s0 > 0 { e(format!("{}: earlier row", at), &|q| term(q, c, t, u).steps_difference = StepDifference::Steps(s0 - 1)) }
                if s0 < sp && s0 + 1 < p.num_rows { e(format!("{}: later row", at), &|q| term(q, c, t, u).steps_difference = StepDifference::Steps(s0 + 1)) }
                for r in 0..regs { if r != r0 { e(format!("{}: register {}", at, r), &|q| term(q, c, t, u).register = reg(r)) } }
            }
        }
    }
    for b in 0..p.boundary_constraints.len() {
        e(format!("value of boundary constraint {}", b), &|q| q.boundary_constraints[b].value.as_mut().unwrap().add_assign(&one));
        e(format!("value of boundary constraint {} negated", b), &|q| q.boundary_constraints[b].value.as_mut().unwrap().negate());
        e(format!("boundary constraint {} removed", b), &|q| { q.boundary_constraints.remove(b); });
        e(format!("boundary constraint {} twice", b), &|q| { let x = q.boundary_constraints[b].clone(); q.boundary_constraints.push(x) });
        for r in 0..regs { if r != num_of(&p.boundary_constraints[b].register) { e(format!("boundary constraint {} on register {}", b, r), &|q| q.boundary_constraints[b].register = reg(r)) } }
        for r in 0..p.num_rows { if r != p.boundary_constraints[b].at_row { e(format!("boundary constraint {} at row {}", b, r), &|q| q.boundary_constraints[b].at_row = r) } }
        if b > 0 && p.boundary_constraints[b] != p.boundary_constraints[b - 1] { e(format!("boundary constraints {} and {} exchanged", b, b - 1), &|q| q.boundary_constraints.swap(b, b - 1)) }
    }
    for r in 0..regs { for t in 0..p.num_rows { e(format!("cell ({},{}) fixed", r, t), &|q| q.boundary_constraints.push(bound(r, t, fe::<F>(0xabcdef)))) } }
    e("one row more".into(), &|q| q.num_rows += 1);
    if p.num_rows > 2 { e("one row less".into(), &|q| q.num_rows -= 1) }
    e("one register more".into(), &|q| q.num_registers += 1);
    v.retain(|(_, q)| q.constraints != p.constraints || q.boundary_constraints != p.boundary_constraints || q.num_rows != p.num_rows || q.num_registers != p.num_registers);
    v
}

// ------------------------------------------------------------------------------------------ C03


/// what the honest prover has in its hands
struct Tables<F: PrimeField> { f: Vec<Vec<F>>, g: Vec<F> }

/// an honest proof with its tables; `script` fixes the challenges
fn base(i: &Inst<F62>, lde: usize, out: usize, script: &Option<(Vec<u64>, Vec<u64>)>) -> Result<(P<F62>, Vec<Op>), Fail> {
    rec(script);
    let p = match prove::<F62, Rec<F62>, OpenIop<F62>>(&i.props, &i.witness, lde, out, 1, Order::Fifo) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) | Err(e) => return Err(format!("{}: no proof: {}", i.name, e).into()),
    };
    Ok((p, recorded()))
}

fn flip(h: &H) -> H { let mut x = *h; x[13] ^= 4; x }

/// vectors with one thing changed
fn vec_changes<X: Clone + PartialEq>(v: &[X], foreign: &[X]) -> Vec<(String, Vec<X>)> {
    let mut l: Vec<(String, Vec<X>)> = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec(); w.remove(i); l.push((format!("[{}] removed", i), w));
        let mut w = v.to_vec(); w.insert(i, v[i].clone()); l.push((format!("[{}] doubled", i), w));
        for j in 0..i { let mut w = v.to_vec(); w.swap(i, j); l.push((format!("[{}] and [{}] exchanged", i, j), w)) }
        for (k, x) in foreign.iter().enumerate() { let mut w = v.to_vec(); w[i] = x.clone(); l.push((format!("[{}] replaced by {}", i, k), w)) }
    }
    for (k, x) in foreign.iter().enumerate() { let mut w = v.to_vec(); w.push(x.clone()); l.push((format!("with {} appended", k), w)) }
    if !v.is_empty() { l.push(("emptied".into(), vec![])); let mut w = v.to_vec(); w.extend_from_slice(v); l.push(("repeated".into(), w)) }
    l.retain(|x| x.1 != v);
    l
}
fn query_changes(q: &Open<F62>, n: usize, table: Option<&[F62]>) -> Vec<(String, Open<F62>)> {
    let mut l = vec![];
    let mut e = |s: String, f: &dyn Fn(&mut Open<F62>)| { let mut x = q.clone(); f(&mut x); l.push((s, x)) };
    for k in [q.natural ^ 1, q.natural ^ (n / 2), (q.natural + 2) % n, 0, n - 1, q.natural + n, usize::MAX, q.natural + (1 << 63)] {
        e(format!("natural position {}", k), &|x| x.natural = k);
        e(format!("tree position {}", k), &|x| x.tree = k);
        e(format!("position {}", k), &|x| { x.natural = k; x.tree = k });
    }
    e("value + 1".into(), &|x| x.value.add_assign(&F62::one()));
    e("value negated".into(), &|x| x.value.negate());
    e("value zero".into(), &|x| x.value = F62::zero());
    for d in 0..q.path.len() {
        e(format!("path element {} changed", d), &|x| x.path[d] = flip(&q.path[d]));
        e(format!("path element {} removed", d), &|x| { x.path.remove(d); });
        e(format!("path element {} doubled", d), &|x| x.path.insert(d, q.path[d]));
        if d > 0 { e(format!("path elements {} and {} exchanged", d, d - 1), &|x| x.path.swap(d, d - 1)) }
    }
    e("empty path".into(), &|x| x.path.clear());
    e("path with one element more".into(), &|x| x.path.push([0; 32]));
    if let Some(t) = table {
        let l2 = levels(t);
        for k in 0..n { e(format!("authentic opening at {}", k), &|x| *x = Open { natural: k, tree: k, value: t[k], path: path_of(&l2, k) }) }
        // authentic nodes of the tree offered as if the tree were smaller
    }
    l.retain(|x| x.1 != *q);
    l
}

fn changes(p: &P<F62>, other: &P<F62>, tb: &Tables<F62>, n1: usize, n2: usize, f: &mut dyn FnMut(String, P<F62>) -> R) -> R {
    let one = F62::one();
    // claimed values
    let mut foreign = vec![F62::zero(), one];
    foreign.extend(other.f_at_z_m.iter());
    for (i, x) in p.f_at_z_m.iter().enumerate() { foreign.push(add(*x, one)); if i > 3 { break } }
    for (s, v) in vec_changes(&p.f_at_z_m, &foreign) { let mut q = copy(p); q.f_at_z_m = v; f(format!("claimed values {}", s), q)? }
    // commitments
    let mut hs: Vec<H> = vec![[0; 32], p.g_iop_root, other.g_iop_root];
    hs.extend(other.f_iop_roots.first());
    hs.extend(p.h1_iop_roots.first());
    let mut fh = hs.clone();
    fh.extend(p.f_iop_roots.first().map(flip));
    for (s, v) in vec_changes(&p.f_iop_roots, &fh) { let mut q = copy(p); q.f_iop_roots = v; f(format!("register roots {}", s), q)? }
    for (k, h) in [[0; 32], flip(&p.g_iop_root), other.g_iop_root, p.h2_iop_roots[0], p.f_iop_roots[0]].iter().enumerate() { if *h != p.g_iop_root { let mut q = copy(p); q.g_iop_root = *h; f(format!("composition root replaced by {}", k), q)? } }
    // openings
    for i in 0..p.f_queries.len() { for (s, x) in query_changes(&p.f_queries[i], n1, Some(&tb.f[i])) { let mut q = copy(p); q.f_queries[i] = x; f(format!("opening of register {}: {}", i, s), q)? } }
    let fq: Vec<Open<F62>> = vec![p.g_query.clone(), other.f_queries[0].clone(), p.fri_proof_h1.queries[0].clone()];
    for (s, v) in vec_changes(&p.f_queries, &fq) { let mut q = copy(p); q.f_queries = v; f(format!("openings of registers {}", s), q)? }
    for (s, x) in query_changes(&p.g_query, n2, Some(&tb.g)) { let mut q = copy(p); q.g_query = x; f(format!("opening of the composition: {}", s), q)? }
    for (k, x) in [p.f_queries[0].clone(), other.g_query.clone(), p.fri_proof_h2.queries[0].clone(), p.fri_proof_h2.queries[1].clone()].iter().enumerate() { if *x != p.g_query { let mut q = copy(p); q.g_query = x.clone(); f(format!("opening of the composition replaced by {}", k), q)? } }
    // low degree proofs
    for which in 0..2 {
        let name = ["h1", "h2"][which];
        let (a, b) = if which == 0 { (&p.fri_proof_h1, &p.fri_proof_h2) } else { (&p.fri_proof_h2, &p.fri_proof_h1) };
        let o = if which == 0 { &other.fri_proof_h1 } else { &other.fri_proof_h2 };
        let mut put = |s: String, g: &dyn Fn(&mut FRIProof<F62, OpenIop<F62>>, &mut Vec<H>)| -> R {
            let mut q = copy(p);
            { let q = &mut q; if which == 0 { g(&mut q.fri_proof_h1, &mut q.h1_iop_roots) } else { g(&mut q.fri_proof_h2, &mut q.h2_iop_roots) } }
            f(format!("{}: {}", name, s), q)
        };
        let mut rh = hs.clone();
        rh.extend(o.roots.first());
        rh.extend(b.roots.first());
        rh.extend(a.roots.last().map(flip));
        for (s, v) in vec_changes(&a.roots, &rh) {
            put(format!("roots in both places {}", s), &|x, r| { x.roots = v.clone(); *r = v.clone() })?;
            put(format!("roots in the low degree proof {}", s), &|x, _| x.roots = v.clone())?;
            put(format!("roots beside the low degree proof {}", s), &|_, r| *r = v.clone())?;
        }
        let m = if which == 0 { n1 } else { n2 };
        for i in 0..a.queries.len() {
            for (s, x) in query_changes(&a.queries[i], m >> (i / 2), None) { put(format!("opening {}: {}", i, s), &|y, _| y.queries[i] = x.clone())? }
        }
        let fq: Vec<Open<F62>> = vec![b.queries[0].clone(), o.queries[0].clone(), p.f_queries[0].clone(), p.g_query.clone()];
        for (s, v) in vec_changes(&a.queries, &fq) { put(format!("openings {}", s), &|y, _| y.queries = v.clone())? }
        let mut ff = vec![F62::zero(), one];
        ff.extend(a.final_coefficients.iter().map(|x| add(*x, one)));
        ff.extend(o.final_coefficients.iter());
        for (s, v) in vec_changes(&a.final_coefficients, &ff) {
            put(format!("final coefficients {}", s), &|y, _| y.final_coefficients = v.clone())?;
            put(format!("final coefficients and their number {}", s), &|y, _| { y.final_coefficients = v.clone(); y.output_coeffs_at_degree_plus_one = v.len() })?;
        }
        let d = a.initial_degree_plus_one;
        let l = a.lde_factor;
        let k = a.output_coeffs_at_degree_plus_one;
        let sz = |x: usize| -> Vec<usize> { let mut v: Vec<usize> = vec![0, 1, 2, 3, 4, x / 2, x * 2, x * 4, x.wrapping_sub(1), x + 1, usize::MAX, 1 << 63, 1 << 62, 1 << 32, 1 << 31, usize::MAX / 2]; v.retain(|y| *y != x); v.sort(); v.dedup(); v };
        for x in sz(d) { put(format!("degree {}", x), &|y, _| y.initial_degree_plus_one = x)? }
        for x in sz(l) { put(format!("factor {}", x), &|y, _| y.lde_factor = x)? }
        for x in sz(k) { put(format!("number of coefficients {}", x), &|y, _| y.output_coeffs_at_degree_plus_one = x)? }
        for (x, y) in [(d * 2, l / 2), (d / 2, l * 2), (d * 4, l / 4), (d * l, 1), (1, d * l)] { if y > 0 && x > 0 { put(format!("degree {} and factor {}", x, y), &|z, _| { z.initial_degree_plus_one = x; z.lde_factor = y })? } }
        put("exchanged with the other low degree proof".into(), &|y, r| { *y = checks::fri::clone_proof(b); *r = b.roots.clone() })?;
        put("of another trace".into(), &|y, r| { *y = checks::fri::clone_proof(o); *r = o.roots.clone() })?;
        // one round less or more, consistently
        if a.roots.len() > 1 {
            put("first round dropped".into(), &|y, r| { y.roots.remove(0); *r = y.roots.clone(); y.queries.drain(0..2); })?;
            put("last round dropped".into(), &|y, r| { y.roots.pop(); *r = y.roots.clone(); let n = y.queries.len(); y.queries.truncate(n - 2); })?;
            put("last round dropped, sizes adapted".into(), &|y, r| { y.roots.pop(); *r = y.roots.clone(); let n = y.queries.len(); y.queries.truncate(n - 2); let k = y.final_coefficients.len(); y.final_coefficients.resize(2 * k, F62::zero()); y.output_coeffs_at_degree_plus_one = 2 * k })?;
            put("first round dropped, sizes adapted".into(), &|y, r| { y.roots.remove(0); *r = y.roots.clone(); y.queries.drain(0..2); y.initial_degree_plus_one /= 2; })?;
        }
        put("last round doubled".into(), &|y, r| { let x = *y.roots.last().unwrap(); y.roots.push(x); *r = y.roots.clone(); let n = y.queries.len(); let t = y.queries[n - 2..].to_vec(); y.queries.extend(t) })?;
    }
    {
        let mut q = copy(p);
        q.fri_proof_h1 = checks::fri::clone_proof(&p.fri_proof_h2);
        q.fri_proof_h2 = checks::fri::clone_proof(&p.fri_proof_h1);
        f("low degree proofs exchanged, roots left".into(), copy(&q))?;
        q.h1_iop_roots = p.h2_iop_roots.clone();
        q.h2_iop_roots = p.h1_iop_roots.clone();
        f("low degree proofs exchanged".into(), q)?;
    }
    // parts of the proof for another trace
    for k in 0..5 {
        let mut q = copy(p);
        match k {
            0 => { q.f_iop_roots = other.f_iop_roots.clone(); q.f_queries = other.f_queries.clone() }
            1 => { q.g_iop_root = other.g_iop_root; q.g_query = other.g_query.clone() }
            2 => q.f_at_z_m = other.f_at_z_m.clone(),
            3 => { q.fri_proof_h1 = checks::fri::clone_proof(&other.fri_proof_h1); q.h1_iop_roots = other.h1_iop_roots.clone(); q.fri_proof_h2 = checks::fri::clone_proof(&other.fri_proof_h2); q.h2_iop_roots = other.h2_iop_roots.clone() }
            _ => { q.f_iop_roots = other.f_iop_roots.clone(); q.f_queries = other.f_queries.clone(); q.f_at_z_m = other.f_at_z_m.clone() }
        }
        f(format!("part {} of another proof", k), q)?
    }
    Ok(())
}

/// instances small enough to change everything
fn small_family(n: usize) -> Vec<Inst<F62>> { family::<F62>(n).into_iter().filter(|i| i.witness.len() <= 4).collect() }

fn table<F: PrimeField>(c: &[F], n: usize) -> Vec<F> { eval_all(c, n, F::one()) }


fn same(a: &P<F62>, b: &P<F62>) -> bool {
    let fr = |x: &FRIProof<F62, OpenIop<F62>>, y: &FRIProof<F62, OpenIop<F62>>| x.queries == y.queries && x.roots == y.roots && x.final_coefficients == y.final_coefficients && x.initial_degree_plus_one == y.initial_degree_plus_one && x.output_coeffs_at_degree_plus_one == y.output_coeffs_at_degree_plus_one && x.lde_factor == y.lde_factor;
    a.f_at_z_m == b.f_at_z_m && a.f_iop_roots == b.f_iop_roots && a.g_iop_root == b.g_iop_root && a.f_queries == b.f_queries && a.g_query == b.g_query && a.h1_iop_roots == b.h1_iop_roots && a.h2_iop_roots == b.h2_iop_roots && fr(&a.fri_proof_h1, &b.fri_proof_h1) && fr(&a.fri_proof_h2, &b.fri_proof_h2)
}

fn changed(ctx: &mut Ctx, i: &Inst<F62>, lde: usize, out: usize, scripted: bool) -> R {
    let r = Ref::new(&i.props);
    let (n1, n2) = (r.t * lde, r.cdom * lde);
    let script = if scripted { script_for(&r, 7, 5, (n2 - 3) as u64) } else { None };
    let (p, _) = base(i, lde, out, &script)?;
    let at = |s: &str| format!("{} with {} rows, factor {}, final size {}{}: {}", i.name, i.props.num_rows, lde, out, if scripted { ", given challenges" } else { "" }, s);
    ensure!(judge(ctx, &r, lde, &p, &script, &|| at("unchanged"))?, "{}", at("the honest proof is not accepted"));
    let j = Inst { name: i.name.clone(), props: i.props.clone(), witness: i.witness.iter().map(|c| c.iter().map(|x| add(*x, fe(3))).collect()).collect() };
    let (o, _) = base(&j, lde, out, &script)?;
    let polys = r.polys(&i.witness);
    // the composition table, from the challenges of this proof
    rec(&script);
    let _ = accepts(ctx, &i.props, lde, &p, &|| "harness".into())?;
    let (sc, _) = draws::<F62>(&recorded());
    let ch: Vec<(F62, F62)> = (0..r.pairs()).map(|k| (sc[2 * k], sc[2 * k + 1])).collect();
    let tb = Tables { f: polys.iter().map(|c| table(c, n1)).collect(), g: table(&r.g_poly(&ch, &polys), n2) };
    changes(&p, &o, &tb, n1, n2, &mut |s, q| {
        if same(&p, &q) { return Ok(()) }
        ctx.state(&(lde, out, s.clone()));
        let got = judge(ctx, &r, lde, &q, &script, &|| at(&s))?;
        // with the sizes adapted it may be an honest proof of another final size
        ensure!(!got || s.contains("sizes adapted") || s.starts_with("part") && r.masks.is_empty(), "{}", at(&format!("{}: still accepted", s)));
        Ok(())
    })
}

/// every bit of every commitment and path element, every power of two added to every element of the proof, and every
/// bit of every position and size
fn c03_bits(c: &mut Cases) {
    let thorough = c.thorough;
    for n in if thorough { vec![2usize, 3, 4, 5, 8, 16] } else { vec![2, 4] } { for i in small_family(n) { for (lde, out) in [(2usize, 1usize), (4, 2), (8, 4)] {
        if out >= n.next_power_of_two() || !thorough && n * lde > 8 && !["fibonacci", "products", "mixture", "power3", "no transitions"].contains(&i.name.as_str()) { continue }
        if Ref::new(&i.props).cdom * lde > if thorough { 64 } else { 32 } { continue }
        let i = i.clone();
        c.add(format!("bits/{}/n{}/x{}/out{}", i.name, n, lde, out), move |ctx| {
            let r = Ref::new(&i.props);
            let (p, _) = base(&i, lde, out, &None)?;
            let mut go = |s: &dyn Fn() -> String, f: &dyn Fn(&mut P<F62>)| -> R {
                let mut q = copy(&p);
                f(&mut q);
                if same(&p, &q) { return Ok(()) }
                let at = || format!("{} with {} rows, factor {}, final size {}: {}", i.name, n, lde, out, s());
                rec(&None);
                let got = accepts(ctx, &r.props, lde, &q, &at)?;
                ensure!(!got, "{}: still accepted", at());
                rec(&None);
                really(ctx, &r.props, lde, &q, false, &at)?;
                ctx.trace();
                Ok(())
            };
            fn xor(h: &mut H, b: usize) { h[b / 8] ^= 1 << (b % 8) }
            fn fr(q: &mut P<F62>, w: usize) -> (&mut FRIProof<F62, OpenIop<F62>>, &mut Vec<H>) { if w == 0 { (&mut q.fri_proof_h1, &mut q.h1_iop_roots) } else { (&mut q.fri_proof_h2, &mut q.h2_iop_roots) } }
            for b in 0..256 {
                go(&|| format!("bit {} of the composition root", b), &|q| xor(&mut q.g_iop_root, b))?;
                for k in 0..p.f_iop_roots.len() { go(&|| format!("bit {} of register root {}", b, k), &|q| xor(&mut q.f_iop_roots[k], b))? }
                for w in 0..2 { for k in 0..if w == 0 { p.h1_iop_roots.len() } else { p.h2_iop_roots.len() } {
                    go(&|| format!("bit {} of root {} of h{}, inside", b, k, w + 1), &|q| xor(&mut fr(q, w).0.roots[k], b))?;
                    go(&|| format!("bit {} of root {} of h{}, beside", b, k, w + 1), &|q| xor(&mut fr(q, w).1[k], b))?;
                    go(&|| format!("bit {} of root {} of h{}, in both places", b, k, w + 1), &|q| { xor(&mut fr(q, w).0.roots[k], b); xor(&mut fr(q, w).1[k], b) })?;
                } }
            }
            // openings
            let at = |q: &mut P<F62>, w: usize, k: usize| -> *mut Open<F62> { match w { 0 => &mut q.f_queries[k], 1 => &mut q.g_query, 2 => &mut q.fri_proof_h1.queries[k], _ => &mut q.fri_proof_h2.queries[k] } };
            for (w, l) in [(0usize, p.f_queries.len()), (1, 1), (2, p.fri_proof_h1.queries.len()), (3, p.fri_proof_h2.queries.len())] { for k in 0..l {
                let depth = match w { 0 => p.f_queries[k].path.len(), 1 => p.g_query.path.len(), 2 => p.fri_proof_h1.queries[k].path.len(), _ => p.fri_proof_h2.queries[k].path.len() };
                // each reference lives for one assignment only
                let put = |q: &mut P<F62>, f: &dyn Fn(&mut Open<F62>)| f(unsafe { &mut *at(q, w, k) });
                for d in 0..depth { for b in (0..256).step_by(if thorough || n == 2 { 1 } else { 3 }) { go(&|| format!("bit {} of sibling {} of opening {} of kind {}", b, d, k, w), &|q| put(q, &|o| xor(&mut o.path[d], b)))? } }
                for b in 0..62 { go(&|| format!("value of opening {} of kind {} plus 2^{}", k, w, b), &|q| put(q, &|o| o.value = add(o.value, fe(1u64 << b))))? }
                for b in 0..64 {
                    go(&|| format!("bit {} of the position of opening {} of kind {}", b, k, w), &|q| put(q, &|o| { o.natural ^= 1 << b; o.tree ^= 1 << b }))?;
                    go(&|| format!("bit {} of the tree position of opening {} of kind {}", b, k, w), &|q| put(q, &|o| o.tree ^= 1 << b))?;
                    go(&|| format!("bit {} of the natural position of opening {} of kind {}", b, k, w), &|q| put(q, &|o| o.natural ^= 1 << b))?;
                }
            } }
            for b in 0..62 {
                let d: F62 = fe(1u64 << b);
                for k in 0..p.f_at_z_m.len() { go(&|| format!("claim {} plus 2^{}", k, b), &|q| q.f_at_z_m[k] = add(q.f_at_z_m[k], d))? }
                for w in 0..2 { for k in 0..if w == 0 { p.fri_proof_h1.final_coefficients.len() } else { p.fri_proof_h2.final_coefficients.len() } { go(&|| format!("final coefficient {} of h{} plus 2^{}", k, w + 1, b), &|q| { let c = &mut fr(q, w).0.final_coefficients[k]; *c = add(*c, d) })? } }
            }
            for b in 0..64 { for w in 0..2 {
                go(&|| format!("bit {} of the degree of h{}", b, w + 1), &|q| fr(q, w).0.initial_degree_plus_one ^= 1 << b)?;
                go(&|| format!("bit {} of the factor of h{}", b, w + 1), &|q| fr(q, w).0.lde_factor ^= 1 << b)?;
                go(&|| format!("bit {} of the final size of h{}", b, w + 1), &|q| fr(q, w).0.output_coeffs_at_degree_plus_one ^= 1 << b)?;
            } }
            ctx.state(&(lde, out, i.name.clone()));
            Ok(())
        });
    } } }
}

/// honest proofs but for the tree of one table, which has another depth where it is opened
fn shapes(ctx: &mut Ctx, i: &Inst<F62>, lde: usize) -> R {
    let r = Ref::new(&i.props);
    let n = [r.t * lde, r.cdom * lde];
    let regs = i.props.num_registers;
    let sc = script_for(&r, 29, 1, 1).expect("script").0;
    for k in 0..=regs { for shape in 0..3 { for at in (1..n[0].max(n[1])).step_by(2) {
        let at = [at % n[0], at % n[1]];
        let plan = Plan { polys: r.polys(&i.witness), composition: Composition::Honest, claims: Claims::True, low: [Low::Fold, Low::Fold], sizes: [honest_sizes(r.t, lde, 1), honest_sizes(r.cdom, lde, 1)], jump: [None, None], shape: Some((k, shape, at[if k < regs { 0 } else { 1 }])) };
        let s = Some((sc.clone(), vec![at[0] as u64, at[1] as u64]));
        let what = || format!("{} with {} rows, factor {}, tree {} in shape {}, positions {:?}", i.name, i.props.num_rows, lde, k, shape, at);
        let mut listen = |p: &P<F62>| -> Result<Vec<Op>, Fail> { rec(&s); accepts(ctx, &i.props, lde, p, &what)?; Ok(recorded()) };
        let a = match attack(&r, lde, &plan, &mut listen)? { Some(a) => a, None => { ctx.outcome("impossible"); continue } };
        let p = a.open(at);
        // positions as they are in that tree, for one or for all
        for natural in 0..3 {
            let mut q = copy(&p);
            let full = at[if k < regs { 0 } else { 1 }];
            let o = if k < regs { &mut q.f_queries[k] } else { &mut q.g_query };
            match natural { 0 => {} 1 => o.natural = o.tree, _ => { if o.tree == full { continue } o.tree = full } }
            ensure!(!judge(ctx, &r, lde, &q, &s, &what)?, "{}: accepted", what());
            ctx.state(&(k, shape, at, natural));
        }
    } } }
    ctx.trace();
    Ok(())
}

fn c03(c: &mut Cases) {
    c03_bits(c);
    for n in if c.thorough { vec![2usize, 3, 4, 5, 8, 16] } else { vec![2, 4, 8] } { for lde in [2usize, 4] { for i in small_family(n) {
        if !c.thorough && Ref::new(&i.props).cdom * lde > 64 { continue }
        c.add(format!("tree shapes/{}/n{}/x{}", i.name, n, lde), move |ctx| shapes(ctx, &i, lde));
    } } }
    histories(c, Judged::Changed);
    for n in if c.thorough { vec![2usize, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17] } else { vec![2, 3, 4, 5, 8] } {
        for i in small_family(n) {
            for (lde, out) in if c.thorough { vec![(2usize, 1usize), (4, 2), (2, 4), (8, 1), (4, 1), (16, 1), (2, 2), (8, 8), (16, 4)] } else { vec![(2, 1), (4, 2), (2, 4), (8, 1)] } {
                if out >= n.next_power_of_two() { continue }
                for scripted in [true, false] {
                    let i = i.clone();
                    c.add(format!("changes/{}/n{}/x{}/out{}/{}", i.name, n, lde, out, if scripted { "given" } else { "own" }), move |ctx| {
                        ctx.sample(|| format!("{:?}", i.props.boundary_constraints));
                        changed(ctx, &i, lde, out, scripted)
                    });
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C04

type Mod = (String, Box<dyn Fn(&mut P<F62>) + Send + Sync>);

fn resize<X: Clone>(v: &mut Vec<X>, how: usize) {
    let n = v.len();
    match how { 0 => v.clear(), 1 => { v.pop(); } 2 => { if let Some(x) = v.last().cloned() { v.push(x) } } 3 => { let w = v.clone(); v.extend(w) } 4 => { if n > 0 { v.remove(0); } } _ => { if let Some(x) = v.first().cloned() { v.resize(n + 64, x) } } }
}
const SIZES: [usize; 14] = [0, 1, 2, 3, 4, 7, 8, 64, 1 << 20, 1 << 32, 1 << 58, 1 << 62, 1 << 63, usize::MAX];

/// structural damage, one thing at a time; `fine` adds damage to single openings
fn damage(p: &P<F62>, fine: bool) -> Vec<Mod> {
    let mut l: Vec<Mod> = vec![];
    fn fri(p: &mut P<F62>, w: usize) -> &mut FRIProof<F62, OpenIop<F62>> { if w == 0 { &mut p.fri_proof_h1 } else { &mut p.fri_proof_h2 } }
    fn roots(p: &mut P<F62>, w: usize) -> &mut Vec<H> { if w == 0 { &mut p.h1_iop_roots } else { &mut p.h2_iop_roots } }
    let mut add_ = |s: String, f: Box<dyn Fn(&mut P<F62>) + Send + Sync>| l.push((s, f));
    for how in 0..6 {
        add_(format!("claimed values, length {}", how), Box::new(move |p| resize(&mut p.f_at_z_m, how)));
        add_(format!("register roots, length {}", how), Box::new(move |p| resize(&mut p.f_iop_roots, how)));
        add_(format!("register openings, length {}", how), Box::new(move |p| resize(&mut p.f_queries, how)));
        add_(format!("composition path, length {}", how), Box::new(move |p| resize(&mut p.g_query.path, how)));
        add_(format!("first register path, length {}", how), Box::new(move |p| if let Some(q) = p.f_queries.first_mut() { resize(&mut q.path, how) }));
        for w in 0..2 {
            add_(format!("h{} roots in both places, length {}", w + 1, how), Box::new(move |p| { resize(&mut fri(p, w).roots, how); resize(roots(p, w), how) }));
            add_(format!("h{} roots inside, length {}", w + 1, how), Box::new(move |p| resize(&mut fri(p, w).roots, how)));
            add_(format!("h{} roots beside, length {}", w + 1, how), Box::new(move |p| resize(roots(p, w), how)));
            add_(format!("h{} openings, length {}", w + 1, how), Box::new(move |p| resize(&mut fri(p, w).queries, how)));
            add_(format!("h{} final coefficients, length {}", w + 1, how), Box::new(move |p| resize(&mut fri(p, w).final_coefficients, how)));
            add_(format!("h{} final coefficients and their number, length {}", w + 1, how), Box::new(move |p| { let f = fri(p, w); resize(&mut f.final_coefficients, how); f.output_coeffs_at_degree_plus_one = f.final_coefficients.len() }));
            add_(format!("h{} all paths, length {}", w + 1, how), Box::new(move |p| for q in fri(p, w).queries.iter_mut() { resize(&mut q.path, how) }));
        }
    }
    for w in 0..2 { for x in SIZES {
        add_(format!("h{} degree {}", w + 1, x), Box::new(move |p| fri(p, w).initial_degree_plus_one = x));
        add_(format!("h{} factor {}", w + 1, x), Box::new(move |p| fri(p, w).lde_factor = x));
        add_(format!("h{} number of coefficients {}", w + 1, x), Box::new(move |p| fri(p, w).output_coeffs_at_degree_plus_one = x));
        add_(format!("h{} all positions {}", w + 1, x), Box::new(move |p| for q in fri(p, w).queries.iter_mut() { q.natural = x; q.tree = x }));
    } }
    for x in SIZES {
        add_(format!("composition position {}", x), Box::new(move |p| { p.g_query.natural = x; p.g_query.tree = x }));
        add_(format!("register positions {}", x), Box::new(move |p| for q in p.f_queries.iter_mut() { q.natural = x; q.tree = x }));
    }
    for w in 0..2 {
        add_(format!("h{} positions congruent", w + 1), Box::new(move |p| for q in fri(p, w).queries.iter_mut() { q.natural |= 1 << 63; q.tree |= 1 << 63 }));
        add_(format!("h{} openings reversed", w + 1), Box::new(move |p| fri(p, w).queries.reverse()));
        add_(format!("h{} roots reversed", w + 1), Box::new(move |p| { fri(p, w).roots.reverse(); roots(p, w).reverse() }));
    }
    if fine {
        for k in (0..=70).chain([100, 255, 256, 257, 1000]) {
            add_(format!("composition path of {}", k), Box::new(move |p| p.g_query.path.resize(k, [1; 32])));
            add_(format!("register paths of {}", k), Box::new(move |p| for q in p.f_queries.iter_mut() { q.path.resize(k, [1; 32]) }));
            for w in 0..2 { add_(format!("h{} paths of {}", w + 1, k), Box::new(move |p| for q in fri(p, w).queries.iter_mut() { q.path.resize(k, [1; 32]) })) }
        }
        for w in 0..2 {
            let n = if w == 0 { p.fri_proof_h1.queries.len() } else { p.fri_proof_h2.queries.len() };
            for i in 0..n {
                for x in SIZES { add_(format!("h{} opening {} position {}", w + 1, i, x), Box::new(move |p| if let Some(q) = fri(p, w).queries.get_mut(i) { q.natural = x; q.tree = x })) }
                for how in 0..6 { add_(format!("h{} opening {} path length {}", w + 1, i, how), Box::new(move |p| if let Some(q) = fri(p, w).queries.get_mut(i) { resize(&mut q.path, how) })) }
            }
            for k in 0..70 {
                add_(format!("h{} {} rounds", w + 1, k), Box::new(move |p| { let r = fri(p, w).roots.first().copied().unwrap_or([0; 32]); fri(p, w).roots.resize(k, r); *roots(p, w) = fri(p, w).roots.clone(); if let Some(q) = fri(p, w).queries.last().cloned() { fri(p, w).queries.resize(2 * k, q) } }));
                add_(format!("h{} {} coefficients", w + 1, k), Box::new(move |p| { fri(p, w).final_coefficients.resize(k, F62::one()); fri(p, w).output_coeffs_at_degree_plus_one = k }));
            }
        }
    }
    l
}

fn malformed(ctx: &mut Ctx, r: &Ref<F62>, lde: usize, p0: &P<F62>, q: &P<F62>, script: &Option<(Vec<u64>, Vec<u64>)>, what: &dyn Fn() -> String) -> R {
    if same(p0, q) { return Ok(()) }
    let got = judge(ctx, r, lde, q, script, what)?;
    ensure!(!got, "{}: accepted", what());
    Ok(())
}

fn c04(c: &mut Cases) {
    histories(c, Judged::Malformed);
    let thorough = c.thorough;
    for n in [2usize, 4, 8, 16] {
        for i in small_family(n) {
            let pairs = n == 4 && ["products", "no transitions", "nothing but constants"].contains(&i.name.as_str()) || n == 8 && ["mixture", "power3"].contains(&i.name.as_str());
            for (lde, out) in [(2usize, 1usize), (4, 2)] {
                if out >= n { continue }
                for scripted in [false, true] {
                    let j = i.clone();
                    c.add(format!("damage/{}/n{}/x{}/out{}/{}", i.name, n, lde, out, if scripted { "given" } else { "own" }), move |ctx| {
                        let r = Ref::new(&j.props);
                        let script = if scripted { script_for(&r, 9, 1, 3) } else { None };
                        let (p, _) = base(&j, lde, out, &script)?;
                        for (s, m) in damage(&p, true) {
                            let mut q = copy(&p);
                            m(&mut q);
                            ctx.state(&s);
                            malformed(ctx, &r, lde, &p, &q, &script, &|| format!("{} with {} rows, factor {}, final size {}: {}", j.name, n, lde, out, s))?;
                        }
                        ctx.sample(|| format!("{} kinds of damage", damage(&p, true).len()));
                        Ok(())
                    });
                }
                if pairs && (lde == 2 || thorough) {
                    for part in 0..8 {
                        let j = i.clone();
                        c.add(format!("pairs/{}/n{}/x{}/out{}/{}", i.name, n, lde, out, part), move |ctx| {
                            let r = Ref::new(&j.props);
                            let script = script_for(&r, 9, 1, 3);
                            let (p, _) = base(&j, lde, out, &script)?;
                            let l = damage(&p, false);
                            for (k, (s, m)) in l.iter().enumerate() { if k % 8 != part { continue } for (s2, m2) in l.iter() {
                                let mut q = copy(&p);
                                m(&mut q);
                                m2(&mut q);
                                ctx.state(&(k, s2));
                                malformed(ctx, &r, lde, &p, &q, &script, &|| format!("{} with {} rows, factor {}, final size {}: {}, then {}", j.name, n, lde, out, s, s2))?;
                            } }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // all triples of size claims, with the vectors as long as they say
    for (n, lde, out) in [(4usize, 2usize, 1usize), (8, 4, 2)] { for w in 0..2 {
        c.add(format!("sizes/n{}/x{}/out{}/h{}", n, lde, out, w + 1), move |ctx| {
            let i = family::<F62>(n).into_iter().find(|i| i.name == "power3").unwrap();
            let r = Ref::new(&i.props);
            let script = script_for(&r, 9, 1, 3);
            let (p, _) = base(&i, lde, out, &script)?;
            for d in SIZES { for l in SIZES { for k in SIZES { for rounds in [0usize, 1, 2, 3, 62, 63, 64] {
                let mut q = copy(&p);
                {
                    let (f, r) = if w == 0 { (&mut q.fri_proof_h1, &mut q.h1_iop_roots) } else { (&mut q.fri_proof_h2, &mut q.h2_iop_roots) };
                    f.initial_degree_plus_one = d; f.lde_factor = l; f.output_coeffs_at_degree_plus_one = k;
                    f.final_coefficients.resize(k.min(64), F62::zero());
                    let x = f.roots[0];
                    f.roots.resize(rounds, x);
                    *r = f.roots.clone();
                    let x = f.queries[0].clone();
                    f.queries.resize(2 * rounds, x);
                }
                ctx.state(&(d, l, k, rounds));
                malformed(ctx, &r, lde, &p, &q, &script, &|| format!("degree {}, factor {}, {} coefficients, {} rounds", d, l, k, rounds))?;
            } } } }
            Ok(())
        });
    } }
    // the commitment scheme of the code itself
    for n in [2usize, 4, 8] { for i in small_family(n) {
        c.add(format!("own commitment/{}/n{}", i.name, n), move |ctx| {
            let p = match prove::<F62, Tb<F62>, Real<F62>>(&i.props, &i.witness, 4, 1, 1, Order::Fifo) { Ok(Ok(p)) => p, e => return Err(format!("{}: no proof {:?}", i.name, e.err()).into()) };
            let mut go = |s: String, q: Proof<F62, Tb<F62>, Real<F62>>| -> R {
                ctx.state(&s);
                let got = accepts(ctx, &i.props, 4, &q, &|| format!("{} with {} rows: {}", i.name, n, s))?;
                ctx.trace();
                ensure!(!got, "{} with {} rows: {}: accepted", i.name, n, s);
                Ok(())
            };
            for how in 0..6 {
                for k in 0..9 {
                    let mut q = copy(&p);
                    match k {
                        0 => resize(&mut q.f_at_z_m, how), 1 => resize(&mut q.f_iop_roots, how), 2 => resize(&mut q.f_queries, how),
                        3 => { resize(&mut q.fri_proof_h1.roots, how); resize(&mut q.h1_iop_roots, how) } 4 => { resize(&mut q.fri_proof_h2.roots, how); resize(&mut q.h2_iop_roots, how) }
                        5 => resize(&mut q.fri_proof_h1.queries, how), 6 => resize(&mut q.fri_proof_h2.queries, how),
                        7 => resize(&mut q.fri_proof_h1.final_coefficients, how), _ => resize(&mut q.fri_proof_h2.final_coefficients, how),
                    }
                    if q.f_at_z_m == p.f_at_z_m && k == 0 { continue }
                    go(format!("vector {} length {}", k, how), q)?;
                }
            }
            #[cfg(hodor_verif_query)]
            for (name, which) in [("register", 0), ("composition", 1), ("h1", 2), ("h2", 3)] {
                let old = match which { 0 => &p.f_queries[0], 1 => &p.g_query, 2 => &p.fri_proof_h1.queries[0], _ => &p.fri_proof_h2.queries[0] };
                let depth = old.path().len();
                let mut put = |s: String, x: usize, path: Vec<H>, v: F62| -> R {
                    let mut q = copy(&p);
                    let y = TrivialBlake2sIopQuery::<F62>::verif_from_parts(x, v, path);
                    match which { 0 => q.f_queries[0] = y, 1 => q.g_query = y, 2 => q.fri_proof_h1.queries[0] = y, _ => q.fri_proof_h2.queries[0] = y }
                    go(format!("{} opening: {}", name, s), q)
                };
                for k in 0..=130 { if k != depth { let mut path = old.path().to_vec(); path.resize(k, [3; 32]); put(format!("path of {}", k), old.natural_index(), path, old.value())? } }
                for x in SIZES { if x != old.natural_index() { put(format!("position {}", x), x, old.path().to_vec(), old.value())? } }
                for b in 0..64 { put(format!("position bit {}", b), old.natural_index() ^ (1 << b), old.path().to_vec(), old.value())? }
                put("value".into(), old.natural_index(), old.path().to_vec(), add(old.value(), F62::one()))?;
            }
            Ok(())
        });
    } }
}

// ------------------------------------------------------------------------------------------ C05

/// what the verifier records for this proof object
fn listen(ctx: &mut Ctx, props: &Props<F62>, lde: usize, p: &P<F62>) -> Result<Vec<Op>, Fail> {
    record(None, None);
    ctx.step(1);
    if let Err(m) = verify::<F62, Rec<F62>, OpenIop<F62>>(props, lde, p) { return Err(format!("the verifier crashes: {}", m).into()) }
    Ok(recorded())
}
fn drawn(l: &[Op]) -> Vec<Vec<u8>> { l.iter().filter_map(|o| match o { Op::Draw(b) | Op::DrawBytes(b) => Some(b.clone()), _ => None }).collect() }
/// bytes committed before each draw, since the one before
fn segments(l: &[Op]) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for o in l { match o { Op::Bytes(b) => v.last_mut().unwrap().extend_from_slice(b), _ => v.push(vec![]) } }
    v
}
fn contains(h: &[u8], n: &[u8]) -> bool { n.is_empty() || h.windows(n.len()).any(|w| w == n) }

fn bind(ctx: &mut Ctx, i: &Inst<F62>, lde: usize, out: usize) -> R {
    let r = Ref::new(&i.props);
    let at = |s: &str| format!("{} with {} rows, factor {}, final size {}: {}", i.name, i.props.num_rows, lde, out, s);
    let (p, by_prover) = base(i, lde, out, &None)?;
    let log = listen(ctx, &i.props, lde, &p)?;
    ensure!(drawn(&by_prover) == drawn(&log), "{}", at("prover and verifier derive different challenges"));
    ensure!(segments(&by_prover) == segments(&log), "{}", at("prover and verifier tell the transcript different things"));
    let k = r.pairs();
    let d = drawn(&log);
    ensure!(d.len() == 2 * k + 1 + r.masks.len() + 2, "{}", at(&format!("{} challenges drawn", d.len())));
    ensure!(d.iter().collect::<HashSet<_>>().len() == d.len(), "{}", at("two challenges are the same"));
    // every message is committed in its phase
    let seg = segments(&log);
    let (zi, pi) = (2 * k, 2 * k + 1 + r.masks.len());
    // bytes committed in (a, b]: after draw a-1 and before draw b
    let between = |a: usize, b: usize| -> Vec<u8> { seg[a..=b].concat() };
    for (j, h) in p.f_iop_roots.iter().enumerate() { ensure!(contains(&seg[0], h), "{}", at(&format!("commitment of register {} is not bound before the first challenge", j))) }
    ensure!(contains(&between(zi, zi), &p.g_iop_root) && (zi == 0 || !contains(&between(0, zi - 1), &p.g_iop_root)), "{}", at("the composition commitment is not bound between its challenges and the out of domain point"));
    for (j, v) in p.f_at_z_m.iter().enumerate() { ensure!(contains(&seg[zi + 1], &be(v)), "{}", at(&format!("claimed value {} is not bound right after the out of domain point", j))) }
    for (name, f) in [("h1", &p.fri_proof_h1), ("h2", &p.fri_proof_h2)] {
        for (j, h) in f.roots.iter().enumerate() { ensure!(contains(&seg[pi], h), "{}", at(&format!("{} layer {} is not bound before the positions are drawn", name, j))) }
        for (j, v) in f.final_coefficients.iter().enumerate() { ensure!(contains(&seg[pi], &be(v)), "{}", at(&format!("{} final coefficient {} is not bound before the positions are drawn", name, j))) }
    }
    ctx.trace();
    // every change reaches every later challenge, and no earlier one
    let mut seen: std::collections::HashMap<(usize, Vec<u8>), (String, P<F62>)> = Default::default();
    use std::collections::hash_map::Entry;
    let mut one = |s: String, from: usize, f: &dyn Fn(&mut P<F62>)| -> R {
        let mut q = copy(&p);
        f(&mut q);
        if same(&p, &q) { return Ok(()) }
        let e = drawn(&listen(ctx, &i.props, lde, &q)?);
        ctx.state(&(lde, out, s.clone()));
        ctx.trace();
        ensure!(e.len() == d.len(), "{}", at(&format!("{} changed: {} challenges instead of {}", s, e.len(), d.len())));
        for j in 0..d.len() {
            if j < from { ensure!(d[j] == e[j], "{}", at(&format!("{} changed: challenge {} is drawn before it, but changes", s, j))) }
            else {
                ensure!(d[j] != e[j], "{}", at(&format!("{} changed: challenge {} does not depend on it", s, j)));
                // nor does it take the value that it has after any other change
                match seen.entry((j, e[j].clone())) {
                    Entry::Occupied(o) => { let (t, r): &(String, P<F62>) = o.get(); ensure!(same(r, &q), "{}", at(&format!("challenge {} does not tell \"{}\" and \"{}\" apart", j, t, s))) }
                    Entry::Vacant(v) => if j == from { v.insert((s.clone(), copy(&q))); },
                }
            }
        }
        Ok(())
    };
    let bits: Vec<usize> = if i.witness.len() <= 4 && i.props.num_rows <= 5 { (0..256).collect() } else { vec![0, 255] };
    let vals: Vec<F62> = if i.witness.len() <= 4 && i.props.num_rows <= 5 { (0..62).map(|k| fe(1u64 << k)).collect() } else { vec![F62::one()] };
    // pairs to exchange: all of them, or neighbours and the ends
    let below = |j: usize, n: usize| -> Vec<usize> { if n <= 40 { (0..j).collect() } else { [0, j / 2, j.saturating_sub(1)].iter().copied().filter(|l| *l < j).collect() } };
    for j in 0..p.f_iop_roots.len() { for &bit in bits.iter() { one(format!("commitment of register {} bit {}", j, bit), 0, &|q| q.f_iop_roots[j][bit / 8] ^= 1 << (bit % 8))? } for l in below(j, p.f_iop_roots.len()) { one(format!("commitments of registers {} and {}", l, j), 0, &|q| q.f_iop_roots.swap(l, j))? } }
    for &bit in bits.iter() { one(format!("composition commitment bit {}", bit), zi, &|q| q.g_iop_root[bit / 8] ^= 1 << (bit % 8))? }
    for j in 0..p.f_at_z_m.len() { for d in vals.iter() { one(format!("claimed value {} plus {}", j, d), zi + 1, &|q| q.f_at_z_m[j].add_assign(d))?; } for l in below(j, p.f_at_z_m.len()) { one(format!("claimed values {} and {}", l, j), zi + 1, &|q| q.f_at_z_m.swap(l, j))? } }
    // values that are zero, or all zero but one, in every place
    let vs: Vec<(bool, F62)> = vec![(false, F62::zero()), (true, F62::one()), (true, fe(0x1_0000_0001))];
    for j in 0..p.f_at_z_m.len() { for (k, (all, x)) in vs.iter().enumerate() { one(format!("claimed value {} replaced ({})", j, k), zi + 1, &|q| { if *all { for y in q.f_at_z_m.iter_mut() { *y = F62::zero() } } q.f_at_z_m[j] = *x })? } }
    for w in 0..2 {
        let (nr, nf) = if w == 0 { (p.h1_iop_roots.len(), p.fri_proof_h1.final_coefficients.len()) } else { (p.h2_iop_roots.len(), p.fri_proof_h2.final_coefficients.len()) };
        let name = ["h1", "h2"][w];
        fn fr(q: &mut P<F62>, w: usize) -> (&mut FRIProof<F62, OpenIop<F62>>, &mut Vec<H>) { if w == 0 { (&mut q.fri_proof_h1, &mut q.h1_iop_roots) } else { (&mut q.fri_proof_h2, &mut q.h2_iop_roots) } }
        for j in 0..nr {
            for &bit in bits.iter() { one(format!("{} layer {} bit {}", name, j, bit), pi, &|q| { let (f, r) = fr(q, w); f.roots[j][bit / 8] ^= 1 << (bit % 8); *r = f.roots.clone() })? }
            for l in 0..j { one(format!("{} layers {} and {}", name, l, j), pi, &|q| { let (f, r) = fr(q, w); f.roots.swap(l, j); *r = f.roots.clone() })? }
        }
        for j in 0..nf { for (k, (all, x)) in vs.iter().enumerate() { one(format!("{} final coefficient {} replaced ({})", name, j, k), pi, &|q| { let c = &mut fr(q, w).0.final_coefficients; if *all { for y in c.iter_mut() { *y = F62::zero() } } c[j] = *x })? } }
        for j in 0..nf { for d in vals.iter() { one(format!("{} final coefficient {} plus {}", name, j, d), pi, &|q| fr(q, w).0.final_coefficients[j].add_assign(d))?; } for l in 0..j { one(format!("{} final coefficients {} and {}", name, l, j), pi, &|q| fr(q, w).0.final_coefficients.swap(l, j))? } }
    }
    Ok(())
}

/// all the statements that are one edit apart have their own challenges
fn statements(ctx: &mut Ctx, i: &Inst<F62>) -> R {
    let (p, log) = base(i, 2, 1, &None)?;
    let mut seen: std::collections::HashMap<Vec<u8>, String> = Default::default();
    let mut list = edits(&i.props);
    list.push(("unchanged".into(), i.props.clone()));
    let mut uniq: Vec<(String, Props<F62>)> = vec![];
    for (s, q) in list { if !uniq.iter().any(|(_, x)| x.constraints == q.constraints && x.boundary_constraints == q.boundary_constraints && x.num_rows == q.num_rows && x.num_registers == q.num_registers) { uniq.push((s, q)) } }
    let _ = log;
    for (s, q) in uniq {
        let l = listen(ctx, &q, 2, &p)?;
        ctx.state(&(i.name.clone(), s.clone()));
        ctx.trace();
        for d in drawn(&l) { if let Some(o) = seen.insert(d, s.clone()) { return Err(format!("{} with {} rows: the statements \"{}\" and \"{}\" share a challenge", i.name, i.props.num_rows, o, s).into()) } }
        // and the prover of that statement starts from it as well
        if i.witness[0].len() == q.num_rows && i.witness.len() == q.num_registers {
            record(None, None);
            let _ = prove::<F62, Rec<F62>, OpenIop<F62>>(&q, &i.witness, 2, 1, 1, Order::Fifo);
            let m = recorded();
            ctx.step(1);
            let k = 2 * (q.constraints.len() + q.boundary_constraints.len());
            let (a, b) = (drawn(&m), drawn(&l));
            let k = k.min(a.len()).min(b.len());
            ensure!(a[..k] == b[..k], "{} with {} rows, \"{}\": prover and verifier start from different statements", i.name, i.props.num_rows, s);
        }
    }
    Ok(())
}

/// numbers and field elements of the statement, changed in one bit each: every bit reaches every challenge
fn statement_bits(ctx: &mut Ctx, i: &Inst<F62>) -> R {
    let (p, _) = base(i, 2, 1, &None)?;
    fn uni_of<'a>(q: &'a mut Props<F62>, c: usize, t: usize, u: usize) -> &'a mut UnivariateTerm<F62> { match &mut q.constraints[c].terms[t] { ConstraintTerm::Univariate(x) => x, ConstraintTerm::Polyvariate(x) => &mut x.terms[u] } }
    let mut list: Vec<(String, Props<F62>)> = vec![("unchanged".into(), i.props.clone())];
    let mut e = |s: String, f: &dyn Fn(&mut Props<F62>)| { let mut q = i.props.clone(); f(&mut q); list.push((s, q)) };
    let p0 = &i.props;
    // the verifier's tables are as large as the number of rows
    for k in 0..8 { e(format!("rows ^ 2^{}", k), &|q| q.num_rows ^= 1 << k) }
    for k in 0..64 {
        let num = |x: &mut usize| *x ^= 1usize << k;
        let el = |x: &mut F62| if k < 62 { x.add_assign(&fe(1u64 << k)) };
        e(format!("registers ^ 2^{}", k), &|q| num(&mut q.num_registers));
        for c in 0..p0.constraints.len() {
            e(format!("constraint {}: constant + 2^{}", c, k), &|q| el(&mut q.constraints[c].constant_term));
            e(format!("constraint {}: start ^ 2^{}", c, k), &|q| if let ConstraintDensity::Dense(d) = &mut q.constraints[c].density { num(&mut d.start_at) });
            e(format!("constraint {}: span ^ 2^{}", c, k), &|q| if let ConstraintDensity::Dense(d) = &mut q.constraints[c].density { num(&mut d.span) });
            for t in 0..p0.constraints[c].terms.len() {
                let us = match &p0.constraints[c].terms[t] { ConstraintTerm::Univariate(_) => 1, ConstraintTerm::Polyvariate(x) => x.terms.len() };
                e(format!("constraint {} product {}: coefficient + 2^{}", c, t, k), &|q| if let ConstraintTerm::Polyvariate(x) = &mut q.constraints[c].terms[t] { el(&mut x.coeff) });
                for u in 0..us {
                    e(format!("constraint {} factor {}.{}: coefficient + 2^{}", c, t, u, k), &|q| el(&mut uni_of(q, c, t, u).coeff));
                    e(format!("constraint {} factor {}.{}: power ^ 2^{}", c, t, u, k), &|q| uni_of(q, c, t, u).power ^= 1 << k);
                    e(format!("constraint {} factor {}.{}: register ^ 2^{}", c, t, u, k), &|q| if let Register::Register(x) = &mut uni_of(q, c, t, u).register { num(x) });
                    // rows repeat with the length of the padded trace
                    if (1usize << k) < p0.num_rows.next_power_of_two() { e(format!("constraint {} factor {}.{}: step ^ 2^{}", c, t, u, k), &|q| if let StepDifference::Steps(x) = &mut uni_of(q, c, t, u).steps_difference { num(x) }) }
                }
            }
        }
        for b in 0..p0.boundary_constraints.len() {
            e(format!("boundary constraint {}: value + 2^{}", b, k), &|q| if let Some(x) = q.boundary_constraints[b].value.as_mut() { el(x) });
            e(format!("boundary constraint {}: row ^ 2^{}", b, k), &|q| num(&mut q.boundary_constraints[b].at_row));
            e(format!("boundary constraint {}: register ^ 2^{}", b, k), &|q| if let Register::Register(x) = &mut q.boundary_constraints[b].register { num(x) });
        }
    }
    let mut seen: std::collections::HashMap<Vec<u8>, String> = Default::default();
    for (k, (s, q)) in list.iter().enumerate() {
        if k > 0 && q.constraints == p0.constraints && q.boundary_constraints == p0.boundary_constraints && q.num_rows == p0.num_rows && q.num_registers == p0.num_registers { continue }
        record(None, None);
        ctx.step(1);
        // what becomes of the verification does not matter: registers may be out of range
        let _ = verify::<F62, Rec<F62>, OpenIop<F62>>(q, 2, &p);
        let d = drawn(&recorded());
        ctx.state(&(i.name.clone(), s.clone()));
        ctx.trace();
        for d in d { if let Some(o) = seen.insert(d, s.clone()) { return Err(format!("{} with {} rows: the statements \"{}\" and \"{}\" share a challenge", i.name, i.props.num_rows, o, s).into()) } }
    }
    ensure!(seen.len() > list.len() / 2, "harness: only {} challenges for {} statements", seen.len(), list.len());
    Ok(())
}

fn c05(c: &mut Cases) {
    for n in [2usize, 3, 4, 5, 8, 9] { for i in family::<F62>(n) { if i.witness.len() <= 5 { c.add(format!("statement bits/{}/n{}", i.name, n), move |ctx| statement_bits(ctx, &i)) } } }
    for n in if c.thorough { vec![2usize, 3, 4, 5, 8, 9] } else { vec![2usize, 5] } { for i in wide::<F62>(n) {
        let j = i.clone();
        c.add(format!("messages/{}/n{}", i.name, n), move |ctx| bind(ctx, &j, 2, 1));
        if i.witness.len() <= 2 && i.props.constraints.len() < if c.thorough { 200 } else { 40 } { c.add(format!("statements/{}/n{}", i.name, n), move |ctx| statements(ctx, &i)) }
    } }
    for n in [2usize, 3, 4, 5, 8, 16] {
        for i in family::<F62>(n) {
            for (lde, out) in [(2usize, 1usize), (4, 2), (2, 4), (16, 1)] {
                if out >= n.next_power_of_two() { continue }
                let j = i.clone();
                c.add(format!("messages/{}/n{}/x{}/out{}", i.name, n, lde, out), move |ctx| { ctx.sample(|| format!("{:?}", j.props.boundary_constraints)); bind(ctx, &j, lde, out) });
            }
            if n <= 5 && i.witness.len() <= 4 { c.add(format!("statements/{}/n{}", i.name, n), move |ctx| statements(ctx, &i)); }
        }
    }
    // a folding challenge that does not come from the commitment of its own layer
    for (deg, lde, out) in checks::fri::sizes(4, 3, 6) {
        c.add(format!("folding/{}x{}/{}", deg, lde, out), move |ctx| {
            use checks::fri::*;
            let n = deg * lde;
            let rounds = (log2(deg) - log2(out)) as usize;
            let cs = seq::<F62>(deg, 5);
            let v = table(&cs, n);
            let good = layers(&v, rounds, out, tree_challenge::<F62>);
            for bad in 0..rounds { for kind in 0..6 {
                // fold by hand, with another challenge in one round
                let mut l = vec![v.clone()];
                for k in 0..rounds {
                    let own = tree_challenge(l.last().unwrap());
                    let ch = if k != bad { own } else { match kind {
                        0 => F62::zero(), 1 => F62::one(), 2 => add(own, F62::one()),
                        3 => if k > 0 { tree_challenge(&l[k - 1]) } else { tree_challenge(&good.layers[rounds]) },
                        4 => tree_challenge(&l[0]), _ => neg(own) } };
                    let x = fold(l.last().unwrap(), ch);
                    l.push(x);
                }
                let mut fin = interpolate_domain(l.last().unwrap(), F62::one());
                fin.truncate(out);
                let own: Vec<F62> = l[..rounds].iter().map(|x| tree_challenge(x)).collect();
                let differs = fold(&l[bad], own[bad]) != l[bad + 1];
                if !differs { continue }
                for idx in (1..n).step_by(2) {
                    let p = open_proof(&l[..rounds], &fin, idx, deg, lde);
                    ctx.step(1);
                    let got = quiet(|| <NaiveFriIop<F62, OpenIop<F62>> as FriIop<F62>>::verify_proof(&p, idx, v[idx]).ok() == Some(true)).map_err(|m| format!("crash: {}", m))?;
                    ctx.state(&(bad, kind, idx));
                    ctx.trace();
                    let want = links_open(&p, idx, v[idx]).is_ok();
                    ensure!(got == want, "degree {} factor {} final {}: round {} folded with challenge kind {}, position {}: verdict {}", deg, lde, out, bad, kind, idx, got);
                    ctx.outcome(if got { "agrees by chance" } else { "rejected" });
                }
            } }
            Ok(())
        });
    }
}
