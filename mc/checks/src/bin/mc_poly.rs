//! C12 transforms, C13 extensions, C14 polynomial objects, C15 helpers, C17 domains, C28 tables
#![allow(dead_code, unused_imports)]
use checks::bigf;
use checks::field::*;
use checks::refs::*;
use checks::*;
use ff::{Field, PrimeField};
use hodor::domains::Domain;
use hodor::polynomials::*;
use hodor::precomputations::PrecomputedOmegas;
use hodor::verif_hooks::Worker;
use mcrt::engine::*;
use mcrt::ensure;
use mcrt::sched::Order;
use std::collections::{HashSet, VecDeque};

type Sk = bigf::stark::Fr;

fn main() {
    mcrt::engine::main(&[
        Property { id: "C12", build: c12, space: "every transform variant (also of the crate built with its feature nightly) x every size 2^0..2^6 (2^8 thorough) x every unit vector (a basis, so by linearity all inputs), dense and sparse vectors up to 2^18 (2^22 thorough), every vector over F17 up to 4 entries and over {0,1,16} with 8 entries; x CPU counts (or log-CPU splits) x CPU hints x pruning counts x roots (generator, its inverse, an odd power) x three task orders; inverse and coset transforms for every coset generator of F17 and F97",
            assumptions: &["basis vectors decide linear code; dense vectors and the exhaustive small-field vectors cover data-dependent branches", "reference evaluates each value separately by Horner's rule (sizes above 2^9: a recursive transform that is itself compared with Horner on smaller sizes)", "radix-4 entry points are only asked for even logarithms, hints do not exceed the CPU count (asserted by the code)"] },
        Property { id: "C13", build: c13, space: "all ten extension entry points (also of the crate built with its feature nightly) x sizes 2^0..2^6 x factors 1..64 x CPU counts 1..100 x three task orders, unit vectors and dense vectors; extended sizes 2^16 to 2^18; domains just above the two-adicity of small fields",
            assumptions: &["factors are powers of two (asserted by the code)", "for the configurations of the recorded finding D1 the exact wrong values are part of the model"] },
        Property { id: "C14", build: c14, space: "all operation histories up to depth 3 (4 thorough) over the 40 operations with the argument alphabet listed in the code, from all start sizes 1..8, states with equal contents merged; every operation, and pairs of them, on lists of up to 1000 (4096 thorough) entries; each once on 5000 and 65537 entries; every CPU count of the list in turn",
            assumptions: &["asserted argument conditions (equal or not larger length of the other operand) are respected"] },
        Property { id: "C15", build: c15, space: "all lengths up to 40 and some up to 1025 x CPU counts x task orders x alphabet of points; all root multisets up to length 4 over F17 plus all lengths up to 24; all interpolation sets of up to 3 points over an alphabet, and longer ones; zero at every position of an inverted vector; the inversion of every vector over F17 up to 4 entries; tables and root lists of up to 2^17 entries",
            assumptions: &["interpolation needs at least two points (asserted by the code)"] },
        Property { id: "C17", build: c17, space: "all requested sizes 0..1100 and all 64-bit boundary sizes 2^k-1, 2^k, 2^k+1, for 12 fields from 5 to 256 bits; all positions of all domains up to 2^13 (2^16 thorough) for the folding maps, and boundary positions of all larger ones up to 2^63",
            assumptions: &["folding maps are only asked for positions inside domains of at least two elements"] },
        Property { id: "C28", build: c28, space: "all domain sizes 2^0..2^13 (2^16 thorough; some up to 2^17, thorough 2^20) x CPU counts x task orders x 4 fields",
            assumptions: &[] },
    ])
}

fn cmp<F: PrimeField>(got: &[F], want: &[F], what: impl Fn() -> String) -> R {
    if got == want { return Ok(()) }
    if got.len() != want.len() { return Err(format!("{}: {} values instead of {}", what(), got.len(), want.len()).into()) }
    let i = (0..got.len()).find(|i| got[*i] != want[*i]).unwrap();
    Err(format!("{}: position {} of {} is {} instead of {}", what(), i, got.len(), got[i], want[i]).into())
}

fn unit<F: PrimeField>(n: usize, i: usize) -> Vec<F> { let mut v = vec![F::zero(); n]; v[i] = F::one(); v }

fn ref_fft<F: PrimeField>(a: &[F], w: F) -> Vec<F> { if a.len() <= 512 { eval_powers(a, w, a.len()) } else { rec_fft(a, w) } }

// ------------------------------------------------------------------------------------------ C12

type Tf<F> = Box<dyn Fn(&mut Vec<F>, &F, u32) + Send + Sync>;

/// all transform variants applicable at this size: (name, number of leading entries it may assume non-zero, function)
fn variants<F: PrimeField>(log_n: u32, machines: &[(usize, Order)]) -> Vec<(String, usize, Tf<F>)> {
    let n = 1usize << log_n;
    let mut v: Vec<(String, usize, Tf<F>)> = vec![];
    // through the public wrapper, whose root is the generator of the domain
    #[cfg(hodor_verif_fft)]
    {
        use hodor::verif_hooks::fft as h;
        v.push(("serial_fft".into(), n, Box::new(|a, w, l| h::serial_fft(a, w, l))));
        for nz in nz_counts(n) {
            v.push((format!("serial_dit_fft/nz={}", nz), nz, Box::new(move |a, w, l| h::serial_dit_fft(a, w, l, nz))));
        }
        if log_n % 2 == 0 { v.push(("serial_radix4_fft".into(), n, Box::new(|a, w, l| h::serial_radix4_fft(a, w, l)))); }
        for lc in 0..=log_n.min(6) {
            for (c, o) in [(1usize << lc, Order::Fifo), (3, Order::Lifo), (7, Order::Eager)] {
                v.push((format!("parallel_fft/log_cpus={}/cpus={}/{:?}", lc, c, o), n, Box::new(move |a, w, l| on(c, o, |k| h::parallel_fft(a, k, w, l, lc)))));
                if lc % 2 == 0 && log_n % 2 == 0 { v.push((format!("parallel_radix4_fft/log_cpus={}/cpus={}/{:?}", lc, c, o), n, Box::new(move |a, w, l| on(c, o, |k| h::parallel_radix4_fft(a, k, w, l, lc))))); }
                for nz in nz_counts(n) {
                    v.push((format!("parallel_dit_fft/log_cpus={}/cpus={}/{:?}/nz={}", lc, c, o, nz), nz, Box::new(move |a, w, l| on(c, o, |k| h::parallel_dit_fft(a, k, w, l, lc, nz)))));
                }
            }
        }
        for (c, o) in machines.iter().cloned() {
            v.push((format!("best_fft/cpus={}/{:?}", c, o), n, Box::new(move |a, w, l| on(c, o, |k| h::best_fft(a, k, w, l, None)))));
            for hint in [1, 2, 3, 4, 8] { if hint <= c && c <= 9 {
                v.push((format!("best_fft/cpus={}/{:?}/hint={}", c, o, hint), n, Box::new(move |a, w, l| on(c, o, |k| h::best_fft(a, k, w, l, Some(hint))))));
            } }
            if log_n % 2 == 0 { v.push((format!("best_radix4_fft/cpus={}/{:?}", c, o), n, Box::new(move |a, w, l| on(c, o, |k| h::best_radix4_fft(a, k, w, l))))); }
            for nz in if n > 1 { vec![n, n / 2] } else { vec![1] } {
                v.push((format!("best_dit_fft/cpus={}/{:?}/nz={}", c, o, nz), nz, Box::new(move |a, w, l| on(c, o, |k| h::best_dit_fft(a, k, w, l, nz)))));
            }
        }
    }
    #[cfg(all(hodor_verif_fft, feature = "prefetched"))]
    {
        use hodor_prefetched::verif_hooks::fft as h;
        v.push(("prefetched/serial_fft".into(), n, Box::new(|a, w, l| h::serial_fft(a, w, l))));
        for (c, o) in machines.iter().cloned() {
            v.push((format!("prefetched/best_fft/cpus={}/{:?}", c, o), n, Box::new(move |a, w, l| on_prefetched(c, o, |k| h::best_fft(a, k, w, l, None)))));
            for hint in [1, 2, 4] { if hint <= c && c <= 9 {
                v.push((format!("prefetched/best_fft/cpus={}/{:?}/hint={}", c, o, hint), n, Box::new(move |a, w, l| on_prefetched(c, o, |k| h::best_fft(a, k, w, l, Some(hint))))));
            } }
        }
    }
    let _ = (machines, n);
    v
}
fn nz_counts(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if n <= 16 { (1..=n).collect() } else { vec![1, 2, 3, n / 4, n / 2 - 1, n / 2, n / 2 + 1, n - 1, n] };
    v.dedup();
    v
}

fn omegas<F: PrimeField>(log_n: u32) -> Vec<(&'static str, F)> {
    let g = root::<F>(log_n);
    let mut v = vec![("generator", g)];
    if log_n >= 2 { v.push(("inverse", inv(g))); }
    if log_n >= 3 { v.push(("cube", pw(g, 3))); }
    v
}

fn transforms<F: PrimeField>(c: &mut Cases, name: &'static str, max_basis: u32, max_dense: u32) {
    let thorough = c.thorough;
    for log_n in 0..=max_dense {
        let ms = machines(thorough || log_n <= 3);
        let n = 1usize << log_n;
        // split the variants so that the cases stay small
        let count = variants::<F>(log_n, &ms).len();
        let parts = if log_n >= 6 { 12 } else if log_n >= 4 { 4 } else { 1 };
        if count == 0 { continue }
        for part in 0..parts {
            let ms = ms.clone();
            c.add(format!("transform/{}/2^{}/part={}", name, log_n, part), move |ctx| {
                let vs = variants::<F>(log_n, &ms);
                for (oname, w) in omegas::<F>(log_n) {
                    if log_n > 9 && oname == "cube" { continue }
                    // inputs with reference outputs
                    let mut inputs: Vec<(String, Vec<F>, Vec<F>)> = vec![];
                    if log_n <= max_basis {
                        let pows = powers(w, n);
                        for i in 0..n { inputs.push((format!("e{}", i), unit(n, i), (0..n).map(|j| pows[i * j % n]).collect())) }
                    }
                    let mut dense = vec![("dense", seq::<F>(n, 7)), ("ones", vec![F::one(); n]), ("minus", vec![neg(F::one()); n])];
                    let only = |keep: &dyn Fn(usize) -> bool| -> Vec<F> { seq::<F>(n, 8).into_iter().enumerate().map(|(i, x)| if keep(i) { x } else { F::zero() }).collect() };
                    if n > 1 { dense.extend([("low half", only(&|i| i < n / 2)), ("high half", only(&|i| i >= n / 2)), ("even", only(&|i| i % 2 == 0)), ("odd", only(&|i| i % 2 == 1))]) }
                    if log_n <= 8 { dense.extend([("two", only(&|i| i == 0 || i == n - 1)), ("middle", only(&|i| i >= n / 4 && i < n - n / 4)), ("thirds", only(&|i| i % 3 == 1))]) }
                    if log_n <= 8 { dense.push(("ramp", (0..n).map(|i| fe::<F>(i as u64)).collect())) }
                    for (d, v) in dense { let r = ref_fft(&v, w); inputs.push((d.to_string(), v, r)) }
                    for (vi, (vn, nz, f)) in vs.iter().enumerate() {
                        if vi % parts != part { continue }
                        for (iname, a, want) in inputs.iter() {
                            let mut a = a.clone();
                            let want = if *nz < n {
                                if a[*nz..].iter().all(|x| x.is_zero()) { want.clone() }
                                else {
                                    if log_n > 9 && iname != "dense" { continue }
                                    if iname.starts_with('e') { continue }
                                    for x in a[*nz..].iter_mut() { *x = F::zero() }
                                    ref_fft(&a, w)
                                }
                            } else { want.clone() };
                            ctx.step(1);
                            f(&mut a, &w, log_n);
                            cmp(&a, &want, || format!("{} of size 2^{} with {} on {}", vn, log_n, oname, iname))?;
                            ctx.state(&(vi, iname, oname));
                            ctx.trace();
                        }
                    }
                }
                ctx.sample(|| format!("{} variants, unit vectors: {}", vs.len(), log_n <= max_basis));
                Ok(())
            });
        }
    }
}

/// all vectors over an alphabet
fn all_vectors<F: PrimeField>(n: usize, alphabet: &[F], mut f: impl FnMut(&[F]) -> R) -> R {
    let mut idx = vec![0usize; n];
    let mut v = vec![alphabet[0]; n];
    loop {
        f(&v)?;
        let mut i = 0;
        loop {
            if i == n { return Ok(()) }
            idx[i] += 1;
            if idx[i] < alphabet.len() { v[i] = alphabet[idx[i]]; break }
            idx[i] = 0; v[i] = alphabet[0]; i += 1;
        }
    }
}

fn coset_gens<F: PrimeField>(small: u64) -> Vec<F> {
    if small > 0 { (1..small).map(fe::<F>).collect() } else { vec![F::one(), neg(F::one()), F::multiplicative_generator(), inv(F::multiplicative_generator()), fe(2), fe(12345), root(5)] }
}

macro_rules! wrappers_of { ($name:ident, $c:ident, $on:ident) => {
fn $name<F: PrimeField>(c: &mut Cases, name: &'static str, max: u32, small: u64) {
    for log_n in 0..=max {
        let ms = machines(c.thorough || log_n <= 4);
        for (cpus, o) in ms {
            c.add(format!("{}/{}/2^{}/cpus={}/{:?}", stringify!($name), name, log_n, cpus, o), move |ctx| {
                let n = 1usize << log_n;
                let g = root::<F>(log_n);
                let mg = F::multiplicative_generator();
                let mut inputs = vec![seq::<F>(n, 3), vec![F::one(); n]];
                if n <= 16 { for i in 0..n { inputs.push(unit(n, i)) } }
                let gens = coset_gens::<F>(if log_n <= 3 { small } else { 0 });
                $on(cpus, o, |w| -> R {
                    for (ii, a) in inputs.iter().enumerate() {
                        let what = |s: &str| format!("{} of size 2^{}, input {}", s, log_n, ii);
                        let p = $c::polynomials::Polynomial::<F, $c::polynomials::Coefficients>::from_coeffs(a.clone()).map_err(|e| format!("{:?}", e))?;
                        let v = p.clone().fft(w);
                        cmp(v.as_ref(), &ref_fft(a, g), || what("fft"))?;
                        ensure!(v.size() == n && v.omega == g, "{}", what("fft changed the domain"));
                        cmp(v.clone().ifft(w).as_ref(), a, || what("ifft(fft)"))?;
                        let mut scaled = a.clone();
                        for (i, x) in scaled.iter_mut().enumerate() { *x = mul(*x, pw(mg, i as u64)) }
                        let v = p.clone().coset_fft(w);
                        cmp(v.as_ref(), &ref_fft(&scaled, g), || what("coset_fft"))?;
                        cmp(v.clone().icoset_fft(w).as_ref(), a, || what("icoset_fft(coset_fft)"))?;
                        // inverse of a value vector that is not made by fft
                        let q = $c::polynomials::Polynomial::<F, $c::polynomials::Values>::from_values(a.clone()).map_err(|e| format!("{:?}", e))?;
                        let k = q.clone().ifft(w);
                        cmp(&ref_fft(k.as_ref(), g), a, || what("ifft"))?;
                        let k = q.clone().icoset_fft(w);
                        cmp(&ref_fft(&k.as_ref().iter().enumerate().map(|(i, x)| mul(*x, pw(mg, i as u64))).collect::<Vec<_>>(), g), a, || what("icoset_fft"))?;
                        ctx.step(6);
                        for s in gens.iter() {
                            let sc: Vec<F> = a.iter().zip(powers(*s, n)).map(|(x, y)| mul(*x, y)).collect();
                            let v = p.clone().coset_fft_for_generator(w, *s);
                            cmp(v.as_ref(), &ref_fft(&sc, g), || what(&format!("coset_fft_for_generator({})", s)))?;
                            cmp(v.icoset_fft_for_generator(w, inv(*s)).as_ref(), a, || what(&format!("icoset_fft_for_generator(1/{})", s)))?;
                            ctx.step(2);
                            ctx.state(&(ii, format!("{}", s)));
                        }
                        ctx.trace();
                    }
                    Ok(())
                })
            });
        }
    }
}
} }
wrappers_of!(wrapper, hodor, on);
#[cfg(feature = "prefetched")]
wrappers_of!(prefetched_wrapper, hodor_prefetched, on_prefetched);

/// long transforms on dense and sparse inputs
#[cfg(hodor_verif_fft)]
fn long_transforms<F: PrimeField>(c: &mut Cases, name: &'static str, sizes: std::ops::RangeInclusive<u32>, ms: Vec<(usize, Order)>) {
    use hodor::verif_hooks::fft as h;
    for log_n in sizes { for (mi, m) in ms.clone().into_iter().enumerate() {
        if ms.len() > 3 && !c.thorough && mi % 3 != log_n as usize % 3 { continue }
        c.add(format!("long/{}/2^{}/cpus={}/{:?}", name, log_n, m.0, m.1), move |ctx| {
            let n = 1usize << log_n;
            let w = root::<F>(log_n);
            let mut low = seq::<F>(n, 9);
            for x in low[n / 2..].iter_mut() { *x = F::zero() }
            for (iname, a, nz) in [("dense", seq::<F>(n, 7), n), ("low half", low, n / 2)] {
                let want = ref_fft(&a, w);
                let mut one = |s: &str, f: &dyn Fn(&mut [F], &Worker)| -> R {
                    let mut b = a.clone();
                    ctx.step(1);
                    on(m.0, m.1, |k| f(&mut b, k));
                    ctx.state(&(s, iname));
                    ctx.trace();
                    cmp(&b, &want, || format!("{} of size 2^{} on {} CPUs, input {}", s, log_n, m.0, iname))
                };
                one("best_fft", &|b, k| h::best_fft(b, k, &w, log_n, None))?;
                if log_n % 2 == 0 { one("best_radix4_fft", &|b, k| h::best_radix4_fft(b, k, &w, log_n))? }
                one("best_dit_fft", &|b, k| h::best_dit_fft(b, k, &w, log_n, nz))?;
                #[cfg(feature = "prefetched")]
                one("prefetched/best_fft", &|b, _| on_prefetched(m.0, m.1, |k| hodor_prefetched::verif_hooks::fft::best_fft(b, k, &w, log_n, None)))?;
                if mi == 0 {
                    one("serial_fft", &|b, _| h::serial_fft(b, &w, log_n))?;
                    one("serial_dit_fft", &|b, _| h::serial_dit_fft(b, &w, log_n, nz))?;
                    if log_n % 2 == 0 { one("serial_radix4_fft", &|b, _| h::serial_radix4_fft(b, &w, log_n))? }
                }
            }
            Ok(())
        });
    } }
}

fn exhaustive_vectors(c: &mut Cases) {
    let full: Vec<F17> = (0..17).map(F17::new).collect();
    for (n, alphabet, name) in [(1usize, full.clone(), "F17"), (2, full.clone(), "F17"), (4, full.clone(), "F17"), (8, vec![F17::new(0), F17::new(1), F17::new(16)], "{0,1,-1}")] {
        let log_n = log2(n);
        let ms = vec![(1, Order::Fifo), (2, Order::Lifo), (3, Order::Eager)];
        let vs = variants::<F17>(log_n, &ms).len();
        for vi in 0..vs {
            let (ms, alphabet) = (ms.clone(), alphabet.clone());
            let vname = variants::<F17>(log_n, &ms)[vi].0.clone();
            if n == 4 && !c.thorough && vname.starts_with("parallel_dit") && !vname.ends_with("nz=4") { continue }
            c.add(format!("all-vectors/{}^{}/{}", name, n, vname), move |ctx| {
                let vs = variants::<F17>(log_n, &ms);
                let (_, nz, f) = &vs[vi];
                let w = root::<F17>(log_n);
                all_vectors(n, &alphabet, |v| {
                    if v[*nz..].iter().any(|x| !x.is_zero()) { return Ok(()) }
                    let mut a = v.to_vec();
                    ctx.step(1);
                    f(&mut a, &w, log_n);
                    ctx.trace();
                    cmp(&a, &eval_powers(v, w, n), || format!("{:?}", v))
                })?;
                ctx.state(&0);
                Ok(())
            });
        }
    }
}

fn c12(c: &mut Cases) {
    let t = c.thorough;
    transforms::<F257>(c, "F257", if t { 8 } else { 6 }, 8);
    transforms::<Bb>(c, "F2013265921", if t { 8 } else { 5 }, if t { 15 } else { 11 });
    transforms::<Sk>(c, "stark", if t { 6 } else { 4 }, if t { 12 } else { 8 });
    #[cfg(hodor_verif_fft)]
    {
        let all = machines(t);
        long_transforms::<Bb>(c, "F2013265921", if t { 16..=18 } else { 12..=14 }, all.clone());
        long_transforms::<Sk>(c, "stark", if t { 13..=15 } else { 9..=11 }, all);
        // a few machines only, up to sizes that need more than 16 bits
        long_transforms::<Bb>(c, "F2013265921", if t { 19..=22 } else { 15..=18 }, few());
        long_transforms::<Sk>(c, "stark", if t { 16..=19 } else { 12..=16 }, few());
    }
    wrapper::<F17>(c, "F17", 4, 17);
    wrapper::<F97>(c, "F97", 5, 97);
    wrapper::<Bb>(c, "F2013265921", if t { 14 } else { 10 }, 0);
    wrapper::<Sk>(c, "stark", if t { 10 } else { 6 }, 0);
    #[cfg(feature = "prefetched")]
    {
        prefetched_wrapper::<F17>(c, "F17", 4, 17);
        prefetched_wrapper::<Bb>(c, "F2013265921", if t { 12 } else { 8 }, 0);
    }
    exhaustive_vectors(c);
    c.add("reference", |ctx| {
        for l in 0..=9u32 { let a = seq::<Bb>(1 << l, 5); let w = root::<Bb>(l); ctx.step(1); ctx.state(&l); cmp(&rec_fft(&a, w), &eval_powers(&a, w, 1 << l), || "the references disagree".into())?; }
        for l in 0..=10u32 { for n in [1usize << l, (1 << l) + 5, 3 << l] { for s in [F12289::one(), fe(11), F12289::multiplicative_generator()] {
            let a = seq::<F12289>(n, 6);
            ctx.step(1);
            let v = eval_all_plainly(&a, 1 << l, s);
            cmp(&eval_all(&a, 1 << l, s), &v, || "the references disagree".into())?;
            let k = interpolate_domain(&v, s);
            cmp(&eval_all_plainly(&k, 1 << l, s), &v, || "the references disagree".into())?;
            if n == 1 << l { cmp(&k, &a, || "the references disagree".into())? }
        } } }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------ C13

/// coefficients, factor, CPUs, order -> values, generator, logarithm of the size
type Ext<F> = Box<dyn Fn(&[F], usize, usize, Order) -> Result<(Vec<F>, F, u32), String> + Send + Sync>;
/// name, on the shifted domain, may show D1
fn extensions<F: PrimeField>() -> Vec<(&'static str, bool, bool, Ext<F>)> {
    let mut v: Vec<(&'static str, bool, bool, Ext<F>)> = vec![];
    macro_rules! list {
        ($c:ident, $on:ident, $($name:expr, $method:ident, $coset:expr, $d1:expr;)*) => {$(
            v.push(($name, $coset, $d1, Box::new(|a, k, cpus, o| {
                let p = $c::polynomials::Polynomial::<F, $c::polynomials::Coefficients>::from_coeffs(a.to_vec()).map_err(|e| format!("{:?}", e))?;
                let r = $on(cpus, o, |w| p.$method(w, k)).map_err(|e| format!("{:?}", e))?;
                if r.size() != r.as_ref().len() { return Err(format!("size {} of {} values", r.size(), r.as_ref().len())) }
                Ok((r.as_ref().to_vec(), r.omega, r.exp))
            })));
        )*};
    }
    list!(hodor, on,
        "lde", lde, false, true;
        "filtering_lde", filtering_lde, false, false;
        "lde_using_multiple_cosets_naive", lde_using_multiple_cosets_naive, false, false;
        "lde_using_multiple_cosets", lde_using_multiple_cosets, false, true;
        "coset_lde", coset_lde, true, true;
        "coset_filtering_lde", coset_filtering_lde, true, false;
        "coset_lde_using_multiple_cosets_naive", coset_lde_using_multiple_cosets_naive, true, false;
        "coset_lde_using_multiple_cosets", coset_lde_using_multiple_cosets, true, true;
    );
    #[cfg(feature = "prefetched")]
    list!(hodor_prefetched, on_prefetched,
        "prefetched/filtering_lde", filtering_lde, false, false;
        "prefetched/coset_filtering_lde", coset_filtering_lde, true, false;
        "prefetched/lde_using_multiple_cosets_naive", lde_using_multiple_cosets_naive, false, false;
        "prefetched/coset_lde_using_multiple_cosets_naive", coset_lde_using_multiple_cosets_naive, true, false;
    );
    v
}

fn extend<F: PrimeField>(c: &mut Cases, name: &'static str, max: u32, max_basis: u32, max_factor: u32) {
    for log_n in 0..=max {
        for log_f in 0..=max_factor {
            if log_n + log_f > F::S { continue }
            if log_n + log_f > if c.thorough { 15 } else { 12 } { continue }
            let ms = machines(c.thorough || log_n + log_f <= 5);
            extend_one::<F>(c, name, log_n, log_f, max_basis, ms);
        }
    }
}

/// a few machines only, up to sizes that need more than 16 bits
fn few() -> Vec<(usize, Order)> { vec![(1, Order::Fifo), (3, Order::Lifo), (8, Order::Eager)] }

fn extend_one<F: PrimeField>(c: &mut Cases, name: &'static str, log_n: u32, log_f: u32, max_basis: u32, ms: Vec<(usize, Order)>) {
    let big = log_n + log_f > 15;
    {
        {
            for (vn, coset, may_d1, f) in extensions::<F>() {
                let ms = ms.clone();
                c.add(format!("{}/{}/2^{}/factor=2^{}", vn, name, log_n, log_f), move |ctx| {
                    let (n, k) = (1usize << log_n, 1usize << log_f);
                    let m = n * k;
                    let w = root::<F>(log_n + log_f);
                    let shift = if coset { F::multiplicative_generator() } else { F::one() };
                    let mut inputs: Vec<(String, Vec<F>)> = vec![("dense".into(), seq(n, 11)), ("ones".into(), vec![F::one(); n])];
                    if log_n <= max_basis { for i in 0..n { inputs.push((format!("e{}", i), unit(n, i))) } }
                    for (iname, a) in inputs {
                        let mut sc: Vec<F> = a.iter().zip(powers(shift, n)).map(|(x, y)| mul(*x, y)).collect();
                        sc.resize(m, F::zero());
                        let want = if m <= 512 { eval_powers(&sc[..n], w, m) } else { rec_fft(&sc, w) };
                        for (cpus, o) in ms.iter().cloned() {
                            ctx.step(1);
                            let (got, omega, exp) = f(&a, k, cpus, o).map_err(|e| format!("{} by {} fails with {}", vn, k, e))?;
                            ensure!(got.len() == m && omega == w && exp == log_n + log_f, "{} by {} gives domain parameters of another size", vn, k);
                            ctx.state(&(&iname, cpus, format!("{:?}", o)));
                            if may_d1 && d1(cpus, k) && got != want && got == d1_values(&want, cpus, k) {
                                ctx.outcome("values as in finding D1");
                                ctx.finding(&format!("D1/{}", vn), &format!("{} by factor {} on {} CPUs evaluates on wrong cosets", vn, k, cpus));
                                continue
                            }
                            cmp(&got, &want, || format!("{} of size {} by {} on {} CPUs, {:?}, input {}", vn, n, k, cpus, o, iname))?;
                            ctx.outcome("values as defined");
                            ctx.trace();
                        }
                    }
                    Ok(())
                });
            }
            #[cfg(hodor_verif_fft)]
            {
                let ms = ms.clone();
                c.add(format!("inner/{}/2^{}/factor=2^{}", name, log_n, log_f), move |ctx| {
                    use hodor::verif_hooks::fft as h;
                    let (n, k) = (1usize << log_n, 1usize << log_f);
                    let (m, l) = (n * k, log_n + log_f);
                    let w = root::<F>(l);
                    let mut inputs: Vec<(String, Vec<F>)> = vec![("dense".into(), seq(n, 13)), ("ones".into(), vec![F::one(); n])];
                    if log_n <= max_basis { for i in 0..n { inputs.push((format!("e{}", i), unit(n, i))) } }
                    for (iname, a) in inputs {
                        let mut sc = a.clone();
                        sc.resize(m, F::zero());
                        let want = if m <= 512 { eval_powers(&a, w, m) } else { rec_fft(&sc, w) };
                        let mut one = |s: String, f: &dyn Fn(&mut [F])| -> R {
                            let mut b = sc.clone();
                            ctx.step(1);
                            f(&mut b);
                            ctx.state(&(&iname, &s));
                            ctx.trace();
                            cmp(&b, &want, || format!("{} of size {} by {}, input {}", s, n, k, iname))
                        };
                        one("serial_lde".into(), &|b| h::serial_lde(b, &w, l, k))?;
                        for lc in 0..=l.min(6) { for (c, o) in [(1usize << lc, Order::Fifo), (3, Order::Lifo), (7, Order::Eager)] {
                            if big && (lc > 3 || c != 1 << lc) { continue }
                            one(format!("parallel_lde/log_cpus={}/cpus={}", lc, c), &|b| on(c, o, |k2| h::parallel_lde(b, k2, &w, l, lc, k)))?;
                        } }
                        for (c, o) in ms.iter().cloned() {
                            one(format!("best_lde/cpus={}/{:?}", c, o), &|b| on(c, o, |k2| h::best_lde(b, k2, &w, l, k)))?;
                            #[cfg(feature = "prefetched")]
                            one(format!("prefetched/best_lde/cpus={}/{:?}", c, o), &|b| on_prefetched(c, o, |k2| hodor_prefetched::verif_hooks::fft::best_lde(b, k2, &w, l, k)))?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

fn too_big<F: PrimeField>(c: &mut Cases, name: &'static str) {
    for (vn, _, _, f) in extensions::<F>() {
        c.add(format!("too-big/{}/{}", vn, name), move |ctx| {
            for log_n in 0..=F::S.min(8) { for log_f in 1..=12u32 {
                for cpus in [1, 2, 3, 8] {
                    let fits = log_n + log_f <= F::S;
                    if fits { continue }
                    ctx.step(1);
                    ctx.state(&(log_n, log_f, cpus));
                    let r = quiet(|| f(&seq(1 << log_n, 1), 1 << log_f, cpus, Order::Fifo));
                    match r {
                        Err(m) => return Err(format!("size 2^{} by 2^{} does not fit the field: {}", log_n, log_f, m).into()),
                        Ok(Ok(_)) => return Err(format!("size 2^{} by 2^{} does not fit the field but is extended", log_n, log_f).into()),
                        Ok(Err(_)) => { ctx.outcome("error for a size that does not fit"); ctx.trace() }
                    }
                }
            } }
            Ok(())
        });
    }
}

fn c13(c: &mut Cases) {
    let t = c.thorough;
    extend::<F257>(c, "F257", 6, if t { 6 } else { 4 }, 6);
    extend::<Bb>(c, "F2013265921", if t { 11 } else { 9 }, 3, 7);
    extend::<Sk>(c, "stark", if t { 6 } else { 4 }, 2, if t { 6 } else { 4 });
    for (n, f) in [(16u32, 1u32), (15, 2), (12, 5), (8, 8), (4, 12), (0, 16)].into_iter().chain(if t { vec![(17, 1), (10, 8), (5, 13), (0, 18), (17, 3)] } else { vec![(5, 12)] }) {
        extend_one::<Bb>(c, "F2013265921", n, f, 0, few());
    }
    for (n, f) in [(15u32, 2u32), (4, 13)] { if t { extend_one::<Sk>(c, "stark", n, f, 0, few()) } }
    too_big::<F17>(c, "F17");
    too_big::<F97>(c, "F97");
    too_big::<F257>(c, "F257");
}

// ------------------------------------------------------------------------------------------ C14

#[derive(Clone)]
enum Obj<F: PrimeField> { C(Polynomial<F, Coefficients>), V(Polynomial<F, Values>) }

#[derive(Clone, Debug)]
enum Op {
    Scale(i64), Negate, Distribute(i64), PadBy(usize), PadTo(usize), Trim(usize),
    // coefficients
    AddC(usize, bool), SubC(usize, bool), AddScaledC(usize, i64), Fft, CosetFft, CosetFftGen(i64), EvalAt(i64), Lde(usize), CosetLde(usize),
    // values
    Pow(u64), Square, Ifft, IcosetFft, IcosetFftGen(i64), AddV, SubV, MulV, AddConst(i64), AddScaledV(i64), Invert,
    AsMut,
}

fn el<F: PrimeField>(v: i64) -> F { if v < 0 { neg(fe((-v) as u64)) } else { fe(v as u64) } }

fn params<F: PrimeField, P: PolynomialForm>(p: &Polynomial<F, P>) -> R {
    let n = p.size();
    ensure!(n.is_power_of_two() && p.as_ref().len() == n, "length {} is not a power of two", n);
    ensure!(p.exp == log2(n), "exp is {} at length {}", p.exp, n);
    ensure!(p.omega == root::<F>(log2(n)), "omega does not match length {}", n);
    ensure!(mul(p.omega, p.omegainv) == F::one(), "omegainv does not match length {}", n);
    ensure!(mul(p.minv, fe::<F>(n as u64)) == F::one(), "minv does not match length {}", n);
    ensure!(mul(p.geninv, F::multiplicative_generator()) == F::one(), "geninv is not the inverse of the generator");
    Ok(())
}

fn c14_ops(is_coeff: bool, n: usize, max: usize) -> Vec<Op> {
    let mut v = vec![Op::Scale(0), Op::Scale(2), Op::Scale(-1), Op::Negate, Op::Distribute(3), Op::Distribute(1), Op::Distribute(0), Op::Distribute(-2),
        Op::PadBy(1), Op::PadBy(2), Op::PadBy(4), Op::PadBy(3), Op::PadBy(0), Op::PadBy(2 * max / n), Op::PadBy(1 << 63),
        Op::PadTo(n / 2), Op::PadTo(n), Op::PadTo(2 * n), Op::PadTo(n + 1), Op::PadTo(2 * max), Op::PadTo(0), Op::PadTo(3 * n), Op::PadTo(1 << 63), Op::PadTo(usize::MAX),
        Op::Trim(0), Op::Trim(1), Op::Trim(n - 1), Op::Trim(n / 2), Op::Trim(n + 7), Op::AsMut];
    if is_coeff {
        v.extend(vec![Op::Fft, Op::CosetFft, Op::CosetFftGen(2), Op::CosetFftGen(-1), Op::EvalAt(0), Op::EvalAt(1), Op::EvalAt(5), Op::Lde(1), Op::Lde(2), Op::CosetLde(1), Op::CosetLde(2)]);
        let mut k = n;
        while k >= 1 { v.push(Op::AddC(k, k == n)); v.push(Op::SubC(k, k == n)); v.push(Op::AddScaledC(k, 2)); v.push(Op::AddScaledC(k, 0)); k /= 2 }
    } else {
        v.extend(vec![Op::Pow(0), Op::Pow(1), Op::Pow(2), Op::Pow(3), Op::Pow(5), Op::Pow(16), Op::Square, Op::Ifft, Op::IcosetFft, Op::IcosetFftGen(2), Op::IcosetFftGen(-1),
            Op::AddV, Op::SubV, Op::MulV, Op::AddConst(0), Op::AddConst(3), Op::AddScaledV(2), Op::AddScaledV(0), Op::Invert]);
    }
    v
}

/// applies to the real object and to the plain list; None: the history ends here
fn c14_apply<F: PrimeField>(o: Obj<F>, l: &[F], op: &Op, w: &Worker) -> Result<Option<(Obj<F>, Vec<F>)>, Fail> {
    let n = l.len();
    let max = 1usize << F::S.min(20);
    let other = |k: usize| -> Vec<F> { (0..k).map(|i| fe::<F>((i * i + 3 * i + 2) as u64)).collect() };
    macro_rules! both { ($o:expr, $p:ident, $e:expr) => { match $o { Obj::C(mut $p) => { $e; Obj::C($p) }, Obj::V(mut $p) => { $e; Obj::V($p) } } } }
    let pow_list = |l: &[F], g: F| -> Vec<F> { l.iter().zip(powers(g, l.len())).map(|(a, b)| mul(*a, b)).collect() };
    let mg = F::multiplicative_generator();
    Ok(Some(match op {
        Op::Scale(k) => { let k: F = el(*k); (both!(o, p, p.scale(w, k)), l.iter().map(|x| mul(*x, k)).collect()) }
        Op::Negate => (both!(o, p, p.negate(w)), l.iter().map(|x| neg(*x)).collect()),
        Op::Distribute(k) => { let k: F = el(*k); (both!(o, p, p.distribute_powers(w, k)), pow_list(l, k)) }
        Op::AsMut => (both!(o, p, { let s = p.as_mut(); let k = s.len(); s[k - 1] = fe(4) }), { let mut v = l.to_vec(); v[n - 1] = fe(4); v }),
        Op::PadBy(_) | Op::PadTo(_) => {
            let (r, target) = match op {
                Op::PadBy(f) => { let mut r = Ok(()); let o = both!(o, p, r = p.pad_by_factor(*f)); ((o, r), n.checked_mul(*f)) }
                Op::PadTo(s) => { let mut r = Ok(()); let o = both!(o, p, r = p.pad_to_size(*s)); ((o, r), Some(*s)) }
                _ => unreachable!()
            };
            let valid = target.map_or(false, |t| t >= n && t.is_power_of_two() && t <= max);
            match (r.1.is_ok(), valid) {
                (true, true) => { let mut v = l.to_vec(); v.resize(target.unwrap(), F::zero()); (r.0, v) }
                (false, false) => (r.0, l.to_vec()),
                (a, b) => return Err(format!("padding: returned ok={}, possible={}", a, b).into()),
            }
        }
        Op::Trim(d) => {
            let mut r = Ok(());
            let o = both!(o, p, r = p.trim_to_degree(*d));
            ensure!(r.is_ok(), "trimming fails");
            let mut v = l.to_vec();
            for (i, x) in v.iter_mut().enumerate() { if i > *d { *x = F::zero() } }
            (o, v)
        }
        _ => match o {
            Obj::C(mut p) => {
                let mk = |k: usize| Polynomial::<F, Coefficients>::from_coeffs(other(k)).map_err(|e| Fail::from(format!("{:?}", e)));
                match op {
                    Op::AddC(k, _) => { let q = mk(*k)?; p.add_assign(w, &q); (Obj::C(p), padd(l, &other(*k))) }
                    Op::SubC(k, _) => { let q = mk(*k)?; p.sub_assign(w, &q); (Obj::C(p), padd(l, &pscale(&other(*k), neg(F::one())))) }
                    Op::AddScaledC(k, s) => { let q = mk(*k)?; p.add_assign_scaled(w, &q, &el(*s)); (Obj::C(p), padd(l, &pscale(&other(*k), el(*s)))) }
                    Op::Fft => (Obj::V(p.fft(w)), eval_all(l, n, F::one())),
                    Op::CosetFft => (Obj::V(p.coset_fft(w)), eval_all(l, n, mg)),
                    Op::CosetFftGen(g) => (Obj::V(p.coset_fft_for_generator(w, el(*g))), eval_all(l, n, el(*g))),
                    Op::EvalAt(x) => { let y = p.evaluate_at(w, el(*x)); ensure!(y == eval(l, el(*x)), "evaluate_at({}) is {} instead of {}", x, y, eval(l, el(*x))); (Obj::C(p), l.to_vec()) }
                    Op::Lde(f) | Op::CosetLde(f) => {
                        let coset = matches!(op, Op::CosetLde(_));
                        if n * f > max { return Ok(None) }
                        let r = if coset { p.coset_lde(w, *f) } else { p.lde(w, *f) };
                        (Obj::V(r.map_err(|e| format!("extension fails with {:?}", e))?), eval_all(l, n * f, if coset { mg } else { F::one() }))
                    }
                    _ => return Ok(None),
                }
            }
            Obj::V(mut p) => {
                let q = Polynomial::<F, Values>::from_values(other(n)).map_err(|e| Fail::from(format!("{:?}", e)))?;
                let z = |f: &dyn Fn(F, F) -> F| -> Vec<F> { l.iter().zip(other(n)).map(|(a, b)| f(*a, b)).collect() };
                match op {
                    Op::Pow(e) => { p.pow(w, *e); (Obj::V(p), l.iter().map(|x| pw(*x, *e)).collect()) }
                    Op::Square => { p.square(w); (Obj::V(p), l.iter().map(|x| mul(*x, *x)).collect()) }
                    Op::Ifft => (Obj::C(p.ifft(w)), interpolate_domain(l, F::one())),
                    Op::IcosetFft => (Obj::C(p.icoset_fft(w)), interpolate_domain(l, mg)),
                    Op::IcosetFftGen(g) => (Obj::C(p.icoset_fft_for_generator(w, inv(el::<F>(*g)))), interpolate_domain(l, el(*g))),
                    Op::AddV => { p.add_assign(w, &q); (Obj::V(p), z(&|a, b| add(a, b))) }
                    Op::SubV => { p.sub_assign(w, &q); (Obj::V(p), z(&|a, b| sub(a, b))) }
                    Op::MulV => { p.mul_assign(w, &q); (Obj::V(p), z(&|a, b| mul(a, b))) }
                    Op::AddConst(k) => { p.add_constant(w, &el(*k)); (Obj::V(p), l.iter().map(|x| add(*x, el(*k))).collect()) }
                    Op::AddScaledV(k) => { p.add_assign_scaled(w, &q, &el(*k)); (Obj::V(p), z(&|a, b| add(a, mul(b, el(*k))))) }
                    Op::Invert => {
                        let r = p.batch_inversion(w);
                        let zero = l.iter().any(|x| x.is_zero());
                        ensure!(r.is_err() == zero, "inversion of a list with zero: {}, error: {}", zero, r.is_err());
                        let v = if zero { l.to_vec() } else { l.iter().map(|x| inv(*x)).collect() };
                        (Obj::V(p), v)
                    }
                    _ => return Ok(None),
                }
            }
        },
    }))
}

fn c14_field<F: PrimeField>(c: &mut Cases, name: &'static str, depth: usize) {
    let max = 1usize << F::S.min(20);
    for (mi, (cpus, o)) in [(1usize, Order::Fifo), (2, Order::Lifo), (3, Order::Eager), (4, Order::Lifo), (5, Order::Fifo), (8, Order::Eager), (13, Order::Lifo)].into_iter().enumerate() {
        for start in 0..9usize {
            for coeff in [true, false] {
                for first in 0..c14_ops(coeff, 1, max).len() + 16 {
                    if !c.thorough && (mi + start) % 3 != 0 && first > 0 { continue }
                    let shallow = !c.thorough && first == 0 && (mi + start) % 3 != 0;
                    // with `first` each initial operation is its own case; with `shallow` a shorter history over all of them
                    if first >= c14_ops(coeff, start.max(1).next_power_of_two(), max).len() { continue }
                    let depth = if shallow { depth - 1 } else { depth };
                    c.add(format!("{}/{}/len={}/cpus={}/{:?}/first={}", name, if coeff { "coefficients" } else { "values" }, start, cpus, o, if shallow { "all".to_string() } else { first.to_string() }), move |ctx| {
                        on(cpus, o, |w| -> R {
                            let list: Vec<F> = (0..start).map(|i| fe::<F>((2 * i * i + i + 1) as u64)).collect();
                            let mut padded = list.clone();
                            padded.resize(start.max(1).next_power_of_two(), F::zero());
                            let obj = if coeff { Obj::C(Polynomial::<F, Coefficients>::from_coeffs(list).map_err(|e| format!("{:?}", e))?) } else { Obj::V(Polynomial::<F, Values>::from_values(list).map_err(|e| format!("{:?}", e))?) };
                            let mut q = VecDeque::new();
                            q.push_back((obj, padded, 0usize, String::new()));
                            while let Some((obj, l, d, h)) = q.pop_front() {
                                let ops = c14_ops(matches!(obj, Obj::C(_)), l.len(), max);
                                for (oi, op) in ops.iter().enumerate() {
                                    if d == 0 && !shallow && oi != first { continue }
                                    if let Op::PadBy(f) = op { if *f > 1 && f.is_power_of_two() && l.len() * f.min(&max) > max && l.len().checked_mul(*f).map_or(false, |t| t <= max) { continue } }
                                    ctx.step(1);
                                    let r = c14_apply(obj.clone(), &l, op, w).map_err(|e| Fail::from(format!("after{} then {:?}: {}", h, op, e.msg)))?;
                                    let (o2, l2) = match r { Some(x) => x, None => continue };
                                    let coeff2 = match &o2 {
                                        Obj::C(p) => { params(p).map_err(|e| Fail::from(format!("after{} then {:?}: {}", h, op, e.msg)))?; cmp(p.as_ref(), &l2, || format!("after{} then {:?}", h, op))?; true }
                                        Obj::V(p) => { params(p).map_err(|e| Fail::from(format!("after{} then {:?}: {}", h, op, e.msg)))?; cmp(p.as_ref(), &l2, || format!("after{} then {:?}", h, op))?; false }
                                    };
                                    ctx.trace();
                                    let key: Vec<String> = l2.iter().map(|x| format!("{}", x)).collect();
                                    if ctx.state(&(coeff2, key)) && d + 1 < depth {
                                        q.push_back((o2, l2, d + 1, format!("{} {:?}", h, op)));
                                    } else { ctx.sample(|| format!("{} {:?}", h, op)) }
                                }
                            }
                            Ok(())
                        })
                    });
                }
            }
        }
    }
    c.add(format!("{}/constructors", name), move |ctx| {
        let max = 1usize << F::S.min(20);
        for n in (0..70usize).chain([max - 1, max, max + 1, 2 * max, 2 * max + 1]) {
            let big = n > max;
            let want: Vec<F> = seq(n, 9);
            ctx.step(4);
            ctx.state(&n);
            let a = Polynomial::<F, Coefficients>::from_coeffs(want.clone());
            let b = Polynomial::<F, Values>::from_values(want.clone());
            let z = Polynomial::<F, Coefficients>::new_for_size(n);
            let y = Polynomial::<F, Values>::new_for_size(n);
            ensure!(a.is_err() == big && b.is_err() == big && z.is_err() == big && y.is_err() == big, "construction of size {}: errors {} {} {} {}", n, a.is_err(), b.is_err(), z.is_err(), y.is_err());
            if big { ctx.outcome("error for a size that does not fit"); continue }
            let (a, b, z, y) = (a.unwrap(), b.unwrap(), z.unwrap(), y.unwrap());
            params(&a)?; params(&b)?; params(&z)?; params(&y)?;
            let mut p = want.clone();
            p.resize(n.max(1).next_power_of_two(), F::zero());
            cmp(a.as_ref(), &p, || "from_coeffs".into())?;
            cmp(b.as_ref(), &p, || "from_values".into())?;
            cmp(&a.into_coeffs(), &p, || "into_coeffs".into())?;
            let zero = vec![F::zero(); p.len()];
            cmp(z.as_ref(), &zero, || "new_for_size".into())?;
            cmp(y.as_ref(), &zero, || "new_for_size".into())?;
            ctx.trace();
        }
        Ok(())
    });
}

/// longer lists: single operations, and every pair of them, on all CPU counts in turn
fn c14_long<F: PrimeField>(c: &mut Cases, name: &'static str, lens: &[usize]) {
    let max = 1usize << F::S.min(20);
    for &start in lens { for coeff in [true, false] {
        let n = start.next_power_of_two();
        for first in 0..c14_ops(coeff, n, max).len() {
            let thorough = c.thorough;
            c.add(format!("{}/long/{}/len={}/first={}", name, if coeff { "coefficients" } else { "values" }, start, first), move |ctx| {
                let list: Vec<F> = (0..start).map(|i| fe::<F>((2 * i * i + i + 1) as u64)).collect();
                let mut padded = list.clone();
                padded.resize(n, F::zero());
                let obj = if coeff { Obj::C(Polynomial::<F, Coefficients>::from_coeffs(list).map_err(|e| format!("{:?}", e))?) } else { Obj::V(Polynomial::<F, Values>::from_values(list).map_err(|e| format!("{:?}", e))?) };
                // the field has domains above what is worth allocating here
                let skip = |op: &Op, l: usize| { let t = match op { Op::PadBy(f) => l.checked_mul(*f), Op::PadTo(s) => Some(*s), _ => None }; t.map_or(false, |t| t > max && t.is_power_of_two() && t.trailing_zeros() <= F::S) };
                let check = |o: &Obj<F>, l: &[F], h: &dyn Fn() -> String| -> R { match o { Obj::C(p) => { params(p).map_err(|e| Fail::from(format!("{}: {}", h(), e.msg)))?; cmp(p.as_ref(), l, || h()) }, Obj::V(p) => { params(p).map_err(|e| Fail::from(format!("{}: {}", h(), e.msg)))?; cmp(p.as_ref(), l, || h()) } } };
                let op = &c14_ops(coeff, n, max)[first];
                if skip(op, n) { return Ok(()) }
                let heavy = |op: &Op| matches!(op, Op::Fft | Op::CosetFft | Op::CosetFftGen(_) | Op::Lde(_) | Op::CosetLde(_) | Op::Ifft | Op::IcosetFft | Op::IcosetFftGen(_));
                let big = n > 1 << 13;
                for (mi, m) in if big { few() } else { machines(thorough) }.into_iter().enumerate() {
                    if !big && heavy(op) && n > 64 && mi % 6 != first % 6 && !thorough { continue }
                    let r = on(m.0, m.1, |w| c14_apply(obj.clone(), &padded, op, w)).map_err(|e| Fail::from(format!("{} entries on {} CPUs, {:?}: {}", start, m.0, op, e.msg)))?;
                    ctx.step(1);
                    ctx.state(&(mi, 0));
                    let (o2, l2) = match r { Some(x) => x, None => break };
                    check(&o2, &l2, &|| format!("{} entries on {} CPUs, {:?}", start, m.0, op))?;
                    ctx.trace();
                    if mi % 9 != first % 9 || l2.len() > 1 << 10 { continue }
                    for (k, op2) in c14_ops(matches!(o2, Obj::C(_)), l2.len(), max).iter().enumerate() {
                        if skip(op2, l2.len()) || (heavy(op2) && l2.len() > if thorough { 512 } else { 128 }) { continue }
                        let r = on(m.0, m.1, |w| c14_apply(o2.clone(), &l2, op2, w)).map_err(|e| Fail::from(format!("{} entries on {} CPUs, {:?}, {:?}: {}", start, m.0, op, op2, e.msg)))?;
                        ctx.step(1);
                        ctx.state(&(mi, k + 1));
                        if let Some((o3, l3)) = r { check(&o3, &l3, &|| format!("{} entries on {} CPUs, {:?}, {:?}", start, m.0, op, op2))?; ctx.trace() }
                    }
                }
                Ok(())
            });
        }
    } }
}

/// single operations with every scalar of `scalars`, every kind of list and of operand (the list itself, its opposite,
/// zeros, ones, units), every shorter length of the operand, and every small and some extreme exponents
fn c14_arguments<F: PrimeField>(c: &mut Cases, name: &'static str, lens: &[usize], scalars: Vec<F>, machines: Vec<(usize, Order)>) {
    const KINDS: usize = 8;
    fn list<F: PrimeField>(kind: usize, n: usize, of: &[F]) -> Vec<F> {
        (0..n).map(|i| match kind {
            0 => fe((2 * i * i + i + 3) as u64),
            1 => F::zero(),
            2 => F::one(),
            3 => if i % 2 == 0 { F::zero() } else { fe(i as u64 + 5) },
            4 => if i == n - 1 { neg(F::one()) } else { F::zero() },
            5 => if i == 0 { fe(7) } else { F::zero() },
            6 => of.get(i).copied().unwrap_or(F::one()),
            _ => neg(of.get(i).copied().unwrap_or(F::one())),
        }).collect()
    }
    for (cpus, o) in machines { for &n in lens { for kind in 0..6 {
        let scalars = scalars.clone();
        c.add(format!("{}/arguments/n{}/list={}/cpus={}/{:?}", name, n, kind, cpus, o), move |ctx| on(cpus, o, |w| -> R {
            let l: Vec<F> = list(kind, n, &[]);
            let bad = |e: hodor::SynthesisError| Fail::from(format!("{:?}", e));
            let co = |l: &[F]| Polynomial::<F, Coefficients>::from_coeffs(l.to_vec()).map_err(bad);
            let va = |l: &[F]| Polynomial::<F, Values>::from_values(l.to_vec()).map_err(bad);
            let map = |f: &dyn Fn(F) -> F| -> Vec<F> { l.iter().map(|x| f(*x)).collect() };
            macro_rules! both { ($p:ident, $e:expr, $want:expr, $what:expr) => { {
                let want: Vec<F> = $want;
                { let mut $p = co(&l)?; $e; params(&$p)?; cmp($p.as_ref(), &want, || format!("{} on coefficients {:?}", $what, l))?; }
                { let mut $p = va(&l)?; $e; params(&$p)?; cmp($p.as_ref(), &want, || format!("{} on values {:?}", $what, l))?; }
                ctx.step(2); ctx.state(&$what); ctx.trace();
            } } }
            macro_rules! one { ($make:expr, $p:ident, $e:expr, $want:expr, $what:expr) => { {
                let want: Vec<F> = $want;
                let mut $p = $make; $e; params(&$p)?; cmp($p.as_ref(), &want, || format!("{} on {:?}", $what, l))?;
                ctx.step(1); ctx.state(&$what); ctx.trace();
            } } }
            for s in scalars.iter().cloned() {
                both!(p, p.scale(w, s), map(&|x| mul(x, s)), format!("scale by {}", s));
                both!(p, p.distribute_powers(w, s), l.iter().zip(powers(s, n)).map(|(a, b)| mul(*a, b)).collect(), format!("distribute {}", s));
                one!(va(&l)?, p, p.add_constant(w, &s), map(&|x| add(x, s)), format!("add constant {}", s));
                let y = co(&l)?.evaluate_at(w, s);
                ensure!(y == eval(&l, s), "{:?} at {} is {} instead of {}", l, s, y, eval(&l, s));
                if !s.is_zero() && n <= 64 {
                    let v = eval_all(&l, n, s);
                    one!(co(&l)?.coset_fft_for_generator(w, s), p, { let _ = &mut p; }, v.clone(), format!("transform on the coset of {}", s));
                    one!(va(&v)?.icoset_fft_for_generator(w, inv(s)), p, { let _ = &mut p; }, l.clone(), format!("inverse transform on the coset of {}", s));
                }
                for other in 0..KINDS {
                    let mut k = n;
                    while k >= 1 {
                        let q = list(other, k, &l);
                        one!(co(&l)?, p, p.add_assign_scaled(w, &co(&q)?, &s), padd(&l, &pscale(&q, s)), format!("add {} times the coefficients {:?}", s, q));
                        if k == n { one!(va(&l)?, p, p.add_assign_scaled(w, &va(&q)?, &s), padd(&l, &pscale(&q, s)), format!("add {} times the values {:?}", s, q)) }
                        k /= 2;
                    }
                }
            }
            both!(p, p.negate(w), map(&neg), "negate".to_string());
            for other in 0..KINDS {
                let mut k = n;
                while k >= 1 {
                    let q = list(other, k, &l);
                    one!(co(&l)?, p, p.add_assign(w, &co(&q)?), padd(&l, &q), format!("add the coefficients {:?}", q));
                    one!(co(&l)?, p, p.sub_assign(w, &co(&q)?), padd(&l, &pscale(&q, neg(F::one()))), format!("subtract the coefficients {:?}", q));
                    k /= 2;
                }
                let q = list(other, n, &l);
                one!(va(&l)?, p, p.add_assign(w, &va(&q)?), padd(&l, &q), format!("add the values {:?}", q));
                one!(va(&l)?, p, p.sub_assign(w, &va(&q)?), padd(&l, &pscale(&q, neg(F::one()))), format!("subtract the values {:?}", q));
                one!(va(&l)?, p, p.mul_assign(w, &va(&q)?), l.iter().zip(q.iter()).map(|(a, b)| mul(*a, *b)).collect(), format!("multiply by the values {:?}", q));
            }
            for e in (0..=34u64).chain([63, 64, 65, 127, 128, 255, 256, 257, 65535, 65536, 65537, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX]) {
                one!(va(&l)?, p, p.pow(w, e), map(&|x| pw(x, e)), format!("power {}", e));
            }
            one!(va(&l)?, p, p.square(w), map(&|x| mul(x, x)), "square".to_string());
            Ok(())
        }));
    } } }
}

fn c14(c: &mut Cases) {
    let t = c.thorough;
    let near = |k: i64| (-k..=k).collect::<Vec<_>>();
    let ms = |all: bool| if all || t { vec![(1, Order::Fifo), (2, Order::Lifo), (3, Order::Eager), (4, Order::Fifo), (7, Order::Lifo), (16, Order::Eager)] } else { vec![(1, Order::Fifo), (3, Order::Eager)] };
    c14_arguments::<F17>(c, "F17", &[1, 2, 4, 8, 16], (0..17).map(|x| fe(x)).collect(), ms(true));
    c14_arguments::<Bb>(c, "F2013265921", &[8, 64], near(if t { 40 } else { 8 }).into_iter().map(el).collect(), ms(false));
    c14_arguments::<Sk>(c, "stark", &[4, 32], near(if t { 10 } else { 3 }).into_iter().map(el).collect(), ms(false));
    c14_long::<F12289>(c, "F12289", if c.thorough { &[16, 31, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 512, 1000, 2048, 4096] } else { &[16, 31, 32, 64, 100, 128, 256, 1000] });
    c14_long::<F62>(c, "F62bit", if c.thorough { &[16, 64, 200, 512] } else { &[16, 64, 200] });
    c14_long::<Bb>(c, "F2013265921", if t { &[5000, 1 << 15, (1 << 16) - 3, (1 << 16) + 1, (1 << 18) + 5] } else { &[5000, (1 << 16) + 1] });
    c14_field::<F17>(c, "F17", if t { 4 } else { 3 });
    c14_field::<F97>(c, "F97", 3);
    if t { c14_field::<F193>(c, "F193", 3); c14_field::<F257>(c, "F257", 2); }
}

// ------------------------------------------------------------------------------------------ C15

fn points<F: PrimeField>() -> Vec<F> { vec![F::zero(), F::one(), neg(F::one()), fe(2), fe(5), F::multiplicative_generator(), inv(fe::<F>(7)), root(3)] }

fn helpers<F: PrimeField>(c: &mut Cases, name: &'static str) {
    let thorough = c.thorough;
    for (cpus, o) in machines(true) {
        c.add(format!("evaluate/{}/cpus={}/{:?}", name, cpus, o), move |ctx| {
            for n in (1..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1024, 1025]) {
                if n > 1 << F::S.min(20) { continue }
                let a: Vec<F> = seq(n, 21);
                for x in points::<F>() {
                    ctx.step(1);
                    ctx.state(&(n, format!("{}", x)));
                    let p = Polynomial::<F, Coefficients>::from_coeffs(a.clone()).map_err(|e| format!("{:?}", e))?;
                    let y = on(cpus, o, |w| p.evaluate_at(w, x));
                    ensure!(y == eval(&a, x), "polynomial of {} coefficients at {}: {} instead of {}", n, x, y, eval(&a, x));
                    ctx.trace();
                }
            }
            Ok(())
        });
        c.add(format!("linear/{}/cpus={}/{:?}", name, cpus, o), move |ctx| {
            for a in points::<F>() { for b in points::<F>() {
                for d in [1u64, 2, 3, 4, 8, 15, 16, 32] {
                    let m = (d as usize).next_power_of_two();
                    let p = Polynomial::<F, Coefficients>::from_coeffs(vec![a, b]).map_err(|e| format!("{:?}", e))?;
                    let v = on(cpus, o, |w| p.evaluate_at_domain_for_degree_one(w, d)).map_err(|e| format!("{:?}", e))?;
                    cmp(v.as_ref(), &eval_all(&[a, b], m, F::one()), || format!("{} + {} x on {} points", a, b, d))?;
                    params(&v)?;
                    let v = on(cpus, o, |w| p.coset_evaluate_at_domain_for_degree_one(w, d)).map_err(|e| format!("{:?}", e))?;
                    cmp(v.as_ref(), &eval_all(&[a, b], m, F::multiplicative_generator()), || format!("{} + {} x on a coset of {} points", a, b, d))?;
                    params(&v)?;
                    ctx.step(2);
                    ctx.state(&(format!("{} {}", a, b), d));
                    ctx.trace();
                }
                let p = Polynomial::<F, Coefficients>::from_coeffs(vec![a, b]).map_err(|e| format!("{:?}", e))?;
                if F::S < 40 {
                    let d = (1u64 << F::S) + 1;
                    ensure!(on(cpus, o, |w| p.evaluate_at_domain_for_degree_one(w, d)).is_err(), "a domain of {} points does not fit", d);
                    ensure!(on(cpus, o, |w| p.coset_evaluate_at_domain_for_degree_one(w, d)).is_err(), "a domain of {} points does not fit", d);
                }
            } }
            Ok(())
        });
        c.add(format!("roots/{}/cpus={}/{:?}", name, cpus, o), move |ctx| {
            let limit = (1usize << F::S.min(20)) - 1;
            for n in (0..=34usize).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256]) {
                if n > limit { continue }
                for kind in 0..4 {
                    let r: Vec<F> = match kind { 0 => seq(n, 31), 1 => vec![fe(3); n], 2 => (0..n).map(|i| fe(i as u64)).collect(), _ => powers(root::<F>(5.min(F::S)), n) };
                    ctx.step(1);
                    ctx.state(&(n, kind));
                    let p = on(cpus, o, |w| Polynomial::<F, Coefficients>::from_roots(r.clone(), w)).map_err(|e| format!("{} roots: {:?}", n, e))?;
                    let mut want = r.iter().fold(vec![F::one()], |a, x| pmul(&a, &[neg(*x), F::one()]));
                    want.resize(want.len().next_power_of_two(), F::zero());
                    cmp(p.as_ref(), &want, || format!("polynomial with roots {:?}", r))?;
                    params(&p)?;
                    ctx.trace();
                }
            }
            if F::S < 10 {
                let r: Vec<F> = seq(limit + 1, 3);
                ensure!(on(cpus, o, |w| Polynomial::<F, Coefficients>::from_roots(r.clone(), w)).is_err(), "{} roots do not fit the field", limit + 1);
            }
            Ok(())
        });
        c.add(format!("vectors/{}/cpus={}/{:?}", name, cpus, o), move |ctx| {
            use hodor::utils::poly;
            for n in (0..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1024, 1025]) {
                let a: Vec<F> = seq(n, 41);
                let b: Vec<F> = seq(n, 42);
                for x in points::<F>() {
                    let mut s = a.clone();
                    on(cpus, o, |_| poly::mul_polynomial_by_scalar(&mut s, x));
                    cmp(&s, &pscale(&a, x), || format!("{} entries scaled by {}", n, x))?;
                    let mut s = a.clone();
                    on(cpus, o, |_| poly::mul_add_polynomials(&mut s, &b, x));
                    cmp(&s, &padd(&a, &pscale(&b, x)), || format!("{} entries plus others by {}", n, x))?;
                    let mut s = a.clone();
                    on(cpus, o, |w| hodor::fft::distribute_powers(&mut s, w, x));
                    cmp(&s, &a.iter().zip(powers(x, n)).map(|(a, b)| mul(*a, b)).collect::<Vec<_>>(), || format!("{} entries by powers of {}", n, x))?;
                    for base in points::<F>() {
                        if n > 40 && base != x && base != fe(5) { continue }
                        let y = on(cpus, o, |_| poly::evaluate_at_consequitive_powers(&a, x, base));
                        let want = mul(x, eval(&a, base));
                        ensure!(y == want, "{} entries against powers of {} from {}: {} instead of {}", n, base, x, y, want);
                        ctx.step(1);
                    }
                    ctx.step(3);
                    ctx.state(&(n, format!("{}", x)));
                    ctx.trace();
                }
            }
            Ok(())
        });
        c.add(format!("inversion/{}/cpus={}/{:?}", name, cpus, o), move |ctx| {
            for n in [1usize, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024] {
                if n > 1 << F::S.min(20) { continue }
                let mut base: Vec<F> = seq(n, 51);
                for x in base.iter_mut() { if x.is_zero() { *x = fe(2) } }
                let mut lists = vec![base.clone(), vec![F::one(); n], vec![neg(F::one()); n], vec![F::zero(); n]];
                for z in 0..n { if n > 64 && z % 29 != 0 && z != n - 1 { continue } let mut v = base.clone(); v[z] = F::zero(); lists.push(v.clone()); v[n - 1 - z] = F::zero(); lists.push(v) }
                for (li, l) in lists.into_iter().enumerate() {
                    let mut p = Polynomial::<F, Values>::from_values(l.clone()).map_err(|e| format!("{:?}", e))?;
                    let r = on(cpus, o, |w| p.batch_inversion(w));
                    ctx.step(1);
                    ctx.state(&(n, li));
                    let zero = l.iter().any(|x| x.is_zero());
                    ensure!(r.is_err() == zero, "{:?}: contains zero: {}, error: {}", l, zero, r.is_err());
                    let want = if zero { l.clone() } else { l.iter().map(|x| inv(*x)).collect() };
                    cmp(p.as_ref(), &want, || format!("inverse of {:?}", l))?;
                    ctx.outcome(if zero { "error, unchanged" } else { "inverted" });
                    ctx.trace();
                }
            }
            Ok(())
        });
    }
    let _ = thorough;
    let _ = name;
}

/// a few machines only, up to sizes that need more than 16 bits
fn large_helpers<F: PrimeField>(c: &mut Cases, name: &'static str) {
    use hodor::utils::poly;
    let thorough = c.thorough;
    let lens: Vec<usize> = if thorough { vec![4097, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 262145] } else { vec![4097, 32768, 65535, 65536, 65537, 131072] };
    for (cpus, o) in few() {
        for n in lens.clone() {
            c.add(format!("large/{}/n{}/cpus={}/{:?}", name, n, cpus, o), move |ctx| {
                let (a, b): (Vec<F>, Vec<F>) = (seq(n, 21), seq(n, 42));
                for x in [fe(2), F::multiplicative_generator(), neg(F::one())] {
                    let p = Polynomial::<F, Coefficients>::from_coeffs(a.clone()).map_err(|e| format!("{:?}", e))?;
                    let y = on(cpus, o, |w| p.evaluate_at(w, x));
                    ensure!(y == eval(&a, x), "polynomial of {} coefficients at {}: {} instead of {}", n, x, y, eval(&a, x));
                    let mut s = a.clone();
                    on(cpus, o, |_| poly::mul_polynomial_by_scalar(&mut s, x));
                    cmp(&s, &pscale(&a, x), || format!("{} entries scaled by {}", n, x))?;
                    let mut s = a.clone();
                    on(cpus, o, |_| poly::mul_add_polynomials(&mut s, &b, x));
                    cmp(&s, &padd(&a, &pscale(&b, x)), || format!("{} entries plus others by {}", n, x))?;
                    let mut s = a.clone();
                    on(cpus, o, |w| hodor::fft::distribute_powers(&mut s, w, x));
                    cmp(&s, &a.iter().zip(powers(x, n)).map(|(a, b)| mul(*a, b)).collect::<Vec<_>>(), || format!("{} entries by powers of {}", n, x))?;
                    let y = on(cpus, o, |_| poly::evaluate_at_consequitive_powers(&a, fe(3), x));
                    ensure!(y == mul(fe(3), eval(&a, x)), "{} entries against powers of {}: {}", n, x, y);
                    ctx.step(5);
                    ctx.state(&format!("{}", x));
                    ctx.trace();
                }
                let p = Polynomial::<F, Coefficients>::from_coeffs(vec![fe(5), fe(7)]).map_err(|e| format!("{:?}", e))?;
                let m = n.next_power_of_two();
                for (coset, g) in [(false, F::one()), (true, F::multiplicative_generator())] {
                    let p = p.clone();
                    let v = on(cpus, o, |w| if coset { p.coset_evaluate_at_domain_for_degree_one(w, n as u64) } else { p.evaluate_at_domain_for_degree_one(w, n as u64) }).map_err(|e| format!("{:?}", e))?;
                    cmp(v.as_ref(), &powers(root::<F>(log2(m)), m).into_iter().map(|x| add(fe(5), mul(fe(7), mul(g, x)))).collect::<Vec<_>>(), || format!("5 + 7x on {} points, coset: {}", n, coset))?;
                    params(&v)?;
                    ctx.step(1);
                }
                let mut list: Vec<F> = seq(n, 51);
                for x in list.iter_mut() { if x.is_zero() { *x = fe(2) } }
                list.resize(m, fe(3));
                for z in [None, Some(0), Some(m / 2), Some(m - 1)] {
                    let mut l = list.clone();
                    if let Some(z) = z { l[z] = F::zero() }
                    let mut p = Polynomial::<F, Values>::from_values(l.clone()).map_err(|e| format!("{:?}", e))?;
                    let r = on(cpus, o, |w| p.batch_inversion(w));
                    ensure!(r.is_err() == z.is_some(), "{} entries, zero at {:?}, error: {}", m, z, r.is_err());
                    if z.is_some() { cmp(p.as_ref(), &l, || format!("{} entries, zero at {:?}", m, z))? }
                    else { for (i, (x, y)) in p.as_ref().iter().zip(l.iter()).enumerate() { ensure!(mul(*x, *y) == F::one(), "inverse of entry {} of {}", i, m) } }
                    ctx.step(1);
                    ctx.state(&z);
                    ctx.trace();
                }
                Ok(())
            });
        }
        for n in if thorough { vec![511usize, 1023, 1024, 1025, 4095] } else { vec![511, 1023, 1025] } {
            c.add(format!("large-roots/{}/n{}/cpus={}/{:?}", name, n, cpus, o), move |ctx| {
                let r: Vec<F> = seq(n, 31);
                let p = on(cpus, o, |w| Polynomial::<F, Coefficients>::from_roots(r.clone(), w)).map_err(|e| format!("{} roots: {:?}", n, e))?;
                let mut want = vec![F::one()];
                for x in r.iter() { // times (X - x)
                    want.push(F::zero());
                    for i in (0..want.len()).rev() { want[i] = sub(if i > 0 { want[i - 1] } else { F::zero() }, mul(*x, want[i])) }
                }
                want.resize(want.len().next_power_of_two(), F::zero());
                ctx.step(1); ctx.state(&n); ctx.trace();
                cmp(p.as_ref(), &want, || format!("polynomial with {} roots", n))?;
                params(&p)
            });
        }
    }
}

/// every list of a few values, inverted
fn all_inversions<F: PrimeField>(c: &mut Cases, name: &'static str, n: usize, alphabet: Vec<F>) {
    for (cpus, o) in [(1usize, Order::Fifo), (2, Order::Lifo), (3, Order::Eager)] {
        let alphabet = alphabet.clone();
        c.add(format!("inversion/{}/all-{}/cpus={}", name, n, cpus), move |ctx| on(cpus, o, |w| all_vectors(n, &alphabet, |l| {
            let mut p = Polynomial::<F, Values>::from_values(l.to_vec()).map_err(|e| format!("{:?}", e))?;
            let r = p.batch_inversion(w);
            let zero = l.iter().any(|x| x.is_zero());
            ctx.step(1); ctx.state(&format!("{:?}", l)); ctx.trace();
            ensure!(r.is_err() == zero, "{:?}: contains zero: {}, error: {}", l, zero, r.is_err());
            if zero { cmp(p.as_ref(), l, || format!("inverse of {:?}", l)) }
            else { cmp(p.as_ref(), &l.iter().map(|x| inv(*x)).collect::<Vec<_>>(), || format!("inverse of {:?}", l)) }
        })));
    }
}

fn interpolation<F: PrimeField>(c: &mut Cases, name: &'static str, xs: Vec<u64>, max_all: usize) {
    use hodor::utils::poly::interpolate;
    fn check<F: PrimeField>(ctx: &mut Ctx, pts: &[(F, F)]) -> R {
        ctx.step(1);
        let xs: Vec<F> = pts.iter().map(|p| p.0).collect();
        let ys: Vec<F> = pts.iter().map(|p| p.1).collect();
        let rep = (0..xs.len()).any(|i| xs[..i].contains(&xs[i]));
        match (interpolate(pts), rep) {
            (None, true) => ctx.outcome("repeated abscissa reported"),
            (None, false) => return Err(format!("no polynomial for {:?}", pts).into()),
            (Some(_), true) => return Err(format!("a polynomial for the repeated abscissa in {:?}", pts).into()),
            (Some(c), false) => { cmp(&c, &lagrange(&xs, &ys), || format!("interpolation of {:?}", pts))?; ctx.outcome("interpolated") }
        }
        ctx.trace();
        Ok(())
    }
    for n in 2..=max_all {
        let xs = xs.clone();
        c.add(format!("interpolate/{}/all-{}", name, n), move |ctx| {
            let xs: Vec<F> = xs.iter().map(|v| fe(*v)).collect();
            let ys: Vec<F> = vec![F::zero(), F::one(), neg(F::one())];
            all_vectors(n, &xs, |x| all_vectors(n, &ys, |y| {
                ctx.state(&format!("{:?}{:?}", x, y));
                check(ctx, &x.iter().cloned().zip(y.iter().cloned()).collect::<Vec<_>>())
            }))
        });
    }
    c.add(format!("interpolate/{}/long", name), |ctx| {
        for n in 2..=20usize {
            for shift in 0..3u64 {
                let xs: Vec<F> = (0..n).map(|i| fe(i as u64 + shift)).collect();
                let ys: Vec<F> = seq(n, 61 + shift);
                let pts: Vec<(F, F)> = xs.iter().cloned().zip(ys.iter().cloned()).collect();
                ctx.state(&(n, shift));
                check(ctx, &pts)?;
                let mut rev = pts.clone();
                rev.reverse();
                check(ctx, &rev)?;
                for i in 0..n { for j in 0..n { if i != j { let mut p = pts.clone(); p[i].0 = p[j].0; ctx.state(&(n, shift, i, j)); check(ctx, &p)?; p[i].1 = p[j].1; check(ctx, &p)?; } } }
            }
        }
        Ok(())
    });
}

fn c15(c: &mut Cases) {
    helpers::<F97>(c, "F97");
    helpers::<Bb>(c, "F2013265921");
    large_helpers::<Bb>(c, "F2013265921");
    if c.thorough { large_helpers::<Sk>(c, "stark") }
    let full: Vec<F17> = (0..17).map(F17::new).collect();
    all_inversions(c, "F17", 1, full.clone());
    all_inversions(c, "F17", 2, full.clone());
    if c.thorough { all_inversions(c, "F17", 4, full) } else { all_inversions(c, "F17", 4, [0, 1, 2, 4, 8, 9, 13, 16].iter().map(|v| F17::new(*v)).collect()) }
    all_inversions(c, "F17", 8, [1, 2, 9, 16].iter().map(|v| F17::new(*v)).collect());
    if c.thorough { helpers::<Sk>(c, "stark"); helpers::<F257>(c, "F257"); }
    for n in 1..=(if c.thorough { 5usize } else { 4 }) {
        for cpus in [1usize, 2, 3, 4, 7] {
            c.add(format!("roots/F17/all-{}/cpus={}", n, cpus), move |ctx| {
                let alphabet: Vec<F17> = if n <= 3 { (0..17).map(F17::new).collect() } else { [0, 1, 2, 4, 15, 16].iter().map(|v| F17::new(*v)).collect() };
                all_vectors(n, &alphabet, |r| {
                    ctx.step(1);
                    ctx.state(&format!("{:?}", r));
                    let p = on(cpus, Order::Lifo, |w| Polynomial::<F17, Coefficients>::from_roots(r.to_vec(), w)).map_err(|e| format!("{:?}", e))?;
                    let mut want = r.iter().fold(vec![F17::one()], |a, x| pmul(&a, &[neg(*x), F17::one()]));
                    want.resize(want.len().next_power_of_two(), F17::zero());
                    ctx.trace();
                    cmp(p.as_ref(), &want, || format!("polynomial with roots {:?}", r))
                })
            });
        }
    }
    interpolation::<F17>(c, "F17", (0..17).collect(), 3);
    interpolation::<F97>(c, "F97", vec![0, 1, 2, 5, 96], if c.thorough { 5 } else { 4 });
    interpolation::<Sk>(c, "stark", vec![0, 1, 7, 1 << 62], 3);
}

// ------------------------------------------------------------------------------------------ C17

fn domains<F: PrimeField>(c: &mut Cases, name: &'static str) {
    c.add(format!("domain/{}", name), |ctx| {
        let mut sizes: Vec<u64> = (0..1100).collect();
        for k in 1..64u32 { let b = 1u64 << k; sizes.extend([b - 1, b, b.saturating_add(1), b + b / 2]) }
        sizes.extend([u64::MAX, u64::MAX - 1, (1 << 63) + 1]);
        for s in sizes {
            ctx.step(1);
            let want = s.max(1).checked_next_power_of_two().filter(|w| w.trailing_zeros() <= F::S);
            let got = quiet(|| Domain::<F>::new_for_size(s)).map_err(|e| format!("domain of size {}: {}", s, e))?;
            match (got, want) {
                (Err(_), None) => { ctx.outcome("error for a size that does not fit") }
                (Ok(d), Some(w)) => {
                    let k = w.trailing_zeros();
                    ensure!(d.size == w && d.power_of_two == k as u64, "size {}: domain of {} = 2^{}", s, d.size, d.power_of_two);
                    // exact order: the last but one squaring is -1
                    let mut x = d.generator;
                    for i in 0..k { if i == k - 1 { ensure!(x == neg(F::one()), "size {}: the generator has a smaller order", s) } x = mul(x, x) }
                    ensure!(x == F::one(), "size {}: the generator does not have order {}", s, w);
                    if k < F::S.min(63) {
                        let up = Domain::<F>::new_for_size(w * 2).map_err(|_| format!("no domain of size {}", w * 2))?;
                        ensure!(mul(up.generator, up.generator) == d.generator, "size {}: generator is not the square of the next", s);
                    } else if k == F::S { ensure!(d.generator == F::root_of_unity(), "size {}: generator is not the root of unity", s) }
                    ctx.outcome("domain");
                    ctx.state(&(d.size, format!("{}", d.generator)));
                }
                (a, b) => return Err(format!("size {}: {:?} instead of {:?}", s, a.map(|d| d.size).ok(), b).into()),
            }
            ctx.trace();
        }
        Ok(())
    });
    for k in 1..=(if c.thorough { 16u32 } else { 13 }).min(F::S) {
        c.add(format!("folding/{}/2^{}", name, k), move |ctx| {
            let n = 1usize << k;
            let d = Domain::<F>::new_for_size(n as u64).map_err(|e| format!("{:?}", e))?;
            let next = Domain::<F>::new_for_size(n as u64 / 2).map_err(|e| format!("{:?}", e))?;
            let (xs, ys) = (powers(d.generator, n), powers(next.generator, n / 2));
            for i in 0..n {
                ctx.step(2);
                ctx.state(&i);
                let pair = Domain::<F>::coset_for_natural_index_and_size(i, n);
                ensure!(pair.len() == 2 && pair[0] < pair[1] && pair[1] < n && pair.contains(&i), "pair of {} in {} is {:?}", i, n, pair);
                ensure!(xs[pair[0]] == neg(xs[pair[1]]), "pair {:?} in {} is not a point and its negation", pair, n);
                combiner::<F>(i, n, &pair)?;
                for p in pair {
                    let (j, m) = Domain::<F>::index_and_size_for_next_domain(p, n);
                    ensure!(m == n / 2 && j < m, "position {} of {} goes to {} of {}", p, n, j, m);
                    ensure!(ys[j] == mul(xs[i], xs[i]), "position {} of {} goes to {}, which is not the square", p, n, j);
                }
                ctx.trace();
            }
            Ok(())
        });
    }
}

/// the pairs of the commitment scheme are those of the domain, in natural order
fn combiner<F: PrimeField>(i: usize, n: usize, pair: &[usize]) -> R {
    use hodor::iop::trivial_coset_combiner::TrivialCombiner;
    use hodor::iop::CosetCombiner;
    ensure!(TrivialCombiner::<F>::get_coset_for_natural_index(i, n) == pair, "opened pair of {} in {} is {:?}", i, n, TrivialCombiner::<F>::get_coset_for_natural_index(i, n));
    let t = TrivialCombiner::<F>::natural_index_into_tree_index(i);
    ensure!(TrivialCombiner::<F>::tree_index_into_natural_index(t) == i, "position {} is {} in the tree, and {} back", i, t, TrivialCombiner::<F>::tree_index_into_natural_index(t));
    let mut back: Vec<usize> = TrivialCombiner::<F>::get_coset_for_tree_index(t, n).into_iter().map(|t| TrivialCombiner::<F>::tree_index_into_natural_index(t)).collect();
    back.sort();
    ensure!(back == pair, "opened pair of the tree position {} in {} is {:?}", t, n, back);
    Ok(())
}

/// boundary positions of domains too large to enumerate
fn large_folding<F: PrimeField>(c: &mut Cases, name: &'static str) {
    for k in 14..=63u32 {
        c.add(format!("folding-large/{}/2^{}", name, k), move |ctx| {
            let n = 1usize << k;
            let mut is: Vec<usize> = vec![];
            for j in 0..=k { let b = 1usize << j; for x in [b - 1, b, b.saturating_add(1), n - b, (n - b).wrapping_sub(1), (n - b) + 1, (n / 2).wrapping_add(b), (n / 2).wrapping_sub(b)] { if x < n { is.push(x) } } }
            is.sort(); is.dedup();
            let gens = if k <= F::S { Some((Domain::<F>::new_for_size(n as u64).map_err(|e| format!("{:?}", e))?.generator, Domain::<F>::new_for_size(n as u64 / 2).map_err(|e| format!("{:?}", e))?.generator)) } else { None };
            for i in is {
                ctx.step(2);
                ctx.state(&i);
                let pair = Domain::<F>::coset_for_natural_index_and_size(i, n);
                let (lo, hi) = (i % (n / 2), i % (n / 2) + n / 2);
                ensure!(pair == [lo, hi], "pair of {} in {} is {:?}", i, n, pair);
                combiner::<F>(i, n, &pair)?;
                for p in pair {
                    let (j, m) = Domain::<F>::index_and_size_for_next_domain(p, n);
                    ensure!(m == n / 2 && j == lo, "position {} of {} goes to {} of {}", p, n, j, m);
                    if let Some((g, h)) = gens {
                        let x = pw(g, p as u64);
                        ensure!(pw(h, j as u64) == mul(x, x), "position {} of {} goes to {}, which is not the square", p, n, j);
                    }
                }
                ctx.trace();
            }
            Ok(())
        });
    }
}

fn c17(c: &mut Cases) {
    large_folding::<Bb>(c, "F2013265921");
    large_folding::<F62>(c, "F62bit");
    large_folding::<Sk>(c, "stark");
    domains::<F17>(c, "F17");
    domains::<F97>(c, "F97");
    domains::<F193>(c, "F193");
    domains::<F257>(c, "F257");
    domains::<F12289>(c, "F12289");
    domains::<Bb>(c, "F2013265921");
    domains::<F62>(c, "F62bit");
    domains::<Sk>(c, "stark");
    domains::<hodor::Fr>(c, "hodor::Fr");
    domains::<bigf::w64::Fr>(c, "64bit");
    domains::<bigf::w129::Fr>(c, "129bit");
    domains::<bigf::w256::Fr>(c, "256bit");
}

// ------------------------------------------------------------------------------------------ C28

fn tables<F: PrimeField>(c: &mut Cases, name: &'static str, max: u32) {
    for (cpus, o) in machines(true) {
        c.add(format!("{}/cpus={}/{:?}", name, cpus, o), move |ctx| {
            for k in 0..=max.min(F::S) {
                let n = 1usize << k;
                let d = Domain::<F>::new_for_size(n as u64).map_err(|e| format!("{:?}", e))?;
                let t = on(cpus, o, |w| PrecomputedOmegas::<F>::new_for_domain(&d, w));
                let g = root::<F>(k);
                let pows = powers(g, n);
                cmp(&t.omegas, &pows, || format!("powers, size {}", n))?;
                cmp(&t.omegas_inv, &powers(inv(g), n / 2), || format!("inverse powers, size {}", n))?;
                cmp(&t.coset, &pscale(&pows, F::multiplicative_generator()), || format!("shifted powers, size {}", n))?;
                ctx.step(1);
                ctx.state(&k);
                ctx.trace();
            }
            Ok(())
        });
    }
}

/// a few machines only, up to sizes that need more than 16 bits
fn large_tables<F: PrimeField>(c: &mut Cases, name: &'static str, sizes: std::ops::RangeInclusive<u32>) {
    for (cpus, o) in few() { for k in sizes.clone() {
        c.add(format!("large/{}/2^{}/cpus={}/{:?}", name, k, cpus, o), move |ctx| {
            let n = 1usize << k;
            let d = Domain::<F>::new_for_size(n as u64).map_err(|e| format!("{:?}", e))?;
            let t = on(cpus, o, |w| PrecomputedOmegas::<F>::new_for_domain(&d, w));
            let pows = powers(root::<F>(k), n);
            cmp(&t.omegas, &pows, || format!("powers, size {}", n))?;
            cmp(&t.omegas_inv, &powers(inv(root::<F>(k)), n / 2), || format!("inverse powers, size {}", n))?;
            cmp(&t.coset, &pscale(&pows, F::multiplicative_generator()), || format!("shifted powers, size {}", n))?;
            ctx.step(1); ctx.state(&k); ctx.trace();
            Ok(())
        });
    } }
}

fn c28(c: &mut Cases) {
    let m = if c.thorough { 16 } else { 13 };
    large_tables::<Bb>(c, "F2013265921", m + 1..=if c.thorough { 20 } else { 17 });
    large_tables::<Sk>(c, "stark", 14..=if c.thorough { 17 } else { 16 });
    tables::<F17>(c, "F17", 4);
    tables::<F257>(c, "F257", 8);
    tables::<Bb>(c, "F2013265921", m);
    tables::<Sk>(c, "stark", if c.thorough { 13 } else { 11 });
    tables::<F62>(c, "F62bit", if c.thorough { 14 } else { 12 });
}
