//! C16 results do not depend on CPU count or task scheduling
#![allow(dead_code, unused_imports)]
use checks::field::*;
use checks::open::*;
use checks::refs::*;
use checks::stark::*;
use checks::*;
use ff::{Field, PrimeField};
use hodor::ali::per_register::*;
use hodor::ali::*;
use hodor::arp::*;
use hodor::domains::Domain;
use hodor::fri::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::*;
use hodor::polynomials::*;
use hodor::precomputations::PrecomputedOmegas;
use hodor::transcript::*;
use hodor::verif_hooks::Worker;
use mcrt::engine::*;
use mcrt::ensure;
use mcrt::sched::{self, Order};
use std::sync::Arc;

type F = F62;
type Tb = Blake2sTranscript<F>;
type Real = TrivialBlake2sIOP<F>;
type Co = Polynomial<F, Coefficients>;
type Va = Polynomial<F, Values>;

fn main() {
    mcrt::engine::main(&[
        Property { id: "C16", build: c16, space: "every parallel region (coefficient and value operations, helpers, transforms, extensions, precomputed tables, commitments, both folding provers, register polynomials, composition, quotients, whole proofs) x input sizes x CPU counts 1..40, 48, 63..65, 100, 128 x three task orders, each compared with one CPU; every order of the tasks of a region with up to the stated number of deviations; every interleaving of the tasks' field operations, channel operations, spawns and joins with up to the stated number of preemptions (1 quick, 2 thorough) on 2 to 4 CPUs",
            assumptions: &["threads communicate through the scope, its channels and memory only (the crate has no unsafe code, so unsynchronised sharing does not compile); tasks interleave at field operations of the harness's field, spawns, joins and channel operations", "for the configurations of the recorded finding D1 the exact wrong values are part of the model"] },
    ])
}

type Run = Arc<dyn Fn(&Worker) -> Vec<F> + Send + Sync>;
/// `known`: the result is an extension by this factor, to which the recorded finding D1 applies; `skip`: CPU counts in which parts of it are made by such extensions
#[derive(Clone)]
struct Region { name: String, run: Run, known: Option<usize>, skip: Vec<usize>, free: bool }

fn bytes(b: &[u8]) -> Vec<F> { b.chunks(7).map(|c| { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); fe(u64::from_le_bytes(x)) }).collect() }
fn num(n: usize) -> F { fe(n as u64) }
fn co(v: Vec<F>) -> Co { Polynomial::from_coeffs(v).expect("power of two") }
fn va(v: Vec<F>) -> Va { Polynomial::from_values(v).expect("power of two") }

fn flat_fri(p: &FRIProof<F, Real>, r: &mut Vec<F>) {
    for q in p.queries.iter() { flat_query(q, r) }
    for h in p.roots.iter() { r.extend(bytes(h)) }
    r.extend(p.final_coefficients.iter());
    r.extend([num(p.initial_degree_plus_one), num(p.lde_factor), num(p.output_coeffs_at_degree_plus_one)]);
}
fn flat_query(q: &<Real as IOP<F>>::Query, r: &mut Vec<F>) {
    r.extend([num(q.natural_index()), num(q.tree_index()), q.value()]);
    for h in q.path() { r.extend(bytes(h)) }
}
fn flat_proto(p: &FRIProofPrototype<F, Real>) -> Vec<F> {
    let mut r = p.challenges.clone();
    for v in p.intermediate_values.iter() { r.extend(v.as_ref()) }
    for h in p.get_roots() { r.extend(bytes(&h)) }
    r.extend(bytes(&p.final_root));
    r.extend(p.final_coefficients.iter());
    r
}
fn flat_proof(p: &Proof<F, Tb, Real>) -> Vec<F> {
    let mut r = p.f_at_z_m.clone();
    for h in p.f_iop_roots.iter().chain([&p.g_iop_root]).chain(p.h1_iop_roots.iter()).chain(p.h2_iop_roots.iter()) { r.extend(bytes(h)) }
    for q in p.f_queries.iter().chain([&p.g_query]) { flat_query(q, &mut r) }
    flat_fri(&p.fri_proof_h1, &mut r);
    flat_fri(&p.fri_proof_h2, &mut r);
    r
}

struct Regions(Vec<Region>);
impl Regions {
    fn add(&mut self, name: impl Into<String>, run: impl Fn(&Worker) -> Vec<F> + Send + Sync + 'static) { self.0.push(Region { name: name.into(), run: Arc::new(run), known: None, skip: vec![], free: false }) }
    fn free(mut self) -> Vec<Region> { for r in self.0.iter_mut() { r.free = true } self.0 }
    fn known(&mut self, factor: usize) { self.0.last_mut().unwrap().known = Some(factor) }
    fn skip(&mut self, factors: &[usize]) { self.0.last_mut().unwrap().skip = factors.to_vec() }
}

/// regions on vectors of `n` entries (a power of two)
fn vector_regions(n: usize) -> Vec<Region> {
    let mut r = Regions(vec![]);
    let x = fe::<F>(987654321);
    let a: Vec<F> = seq(n, 1);
    let b: Vec<F> = seq(n, 2);
    macro_rules! on_coeffs { ($name:expr, |$p:ident, $w:ident| $e:expr) => {{ let a = a.clone(); let b = b.clone(); let _ = &b; r.add(format!("{}/n{}", $name, n), move |$w| { #[allow(unused_mut)] let mut $p = co(a.clone()); let _ = &b; $e }) }} }
    macro_rules! on_values { ($name:expr, |$p:ident, $w:ident| $e:expr) => {{ let a = a.clone(); let b = b.clone(); let _ = &b; r.add(format!("{}/n{}", $name, n), move |$w| { #[allow(unused_mut)] let mut $p = va(a.clone()); let _ = &b; $e }) }} }
    on_coeffs!("distribute_powers", |p, w| { p.distribute_powers(w, x); p.into_coeffs() });
    on_coeffs!("scale", |p, w| { p.scale(w, x); p.into_coeffs() });
    on_coeffs!("negate", |p, w| { p.negate(w); p.into_coeffs() });
    on_coeffs!("evaluate_at", |p, w| vec![p.evaluate_at(w, x)]);
    on_coeffs!("fft", |p, w| p.fft(w).into_coeffs());
    on_coeffs!("coset_fft", |p, w| p.coset_fft(w).into_coeffs());
    on_coeffs!("coset_fft_for_generator", |p, w| p.coset_fft_for_generator(w, x).into_coeffs());
    { let b = b.clone(); let a = a.clone(); r.add(format!("coeffs.add_assign/n{}", n), move |w| { let mut p = co(a.clone()); p.add_assign(w, &co(b.clone())); p.into_coeffs() }); }
    { let b = b.clone(); let a = a.clone(); r.add(format!("coeffs.add_assign_scaled/n{}", n), move |w| { let mut p = co(a.clone()); p.add_assign_scaled(w, &co(b.clone()), &x); p.into_coeffs() }); }
    { let b = b.clone(); let a = a.clone(); r.add(format!("coeffs.sub_assign/n{}", n), move |w| { let mut p = co(a.clone()); p.sub_assign(w, &co(b.clone())); p.into_coeffs() }); }
    on_values!("pow", |p, w| { p.pow(w, 5); p.into_coeffs() });
    on_values!("square", |p, w| { p.square(w); p.into_coeffs() });
    on_values!("ifft", |p, w| p.ifft(w).into_coeffs());
    on_values!("icoset_fft", |p, w| p.icoset_fft(w).into_coeffs());
    on_values!("icoset_fft_for_generator", |p, w| p.icoset_fft_for_generator(w, x).into_coeffs());
    on_values!("add_constant", |p, w| { p.add_constant(w, &x); p.into_coeffs() });
    on_values!("batch_inversion", |p, w| { p.batch_inversion(w).expect("no zero"); p.into_coeffs() });
    { let mut a = a.clone(); a[n / 2] = F::zero(); r.add(format!("batch_inversion of zero/n{}", n), move |w| { let mut p = va(a.clone()); let e = p.batch_inversion(w).is_err(); let mut v = p.into_coeffs(); v.push(num(e as usize)); v }); }
    { let b = b.clone(); let a = a.clone(); r.add(format!("values.add_assign/n{}", n), move |w| { let mut p = va(a.clone()); p.add_assign(w, &va(b.clone())); p.into_coeffs() }); }
    { let b = b.clone(); let a = a.clone(); r.add(format!("values.add_assign_scaled/n{}", n), move |w| { let mut p = va(a.clone()); p.add_assign_scaled(w, &va(b.clone()), &x); p.into_coeffs() }); }
    { let b = b.clone(); let a = a.clone(); r.add(format!("values.sub_assign/n{}", n), move |w| { let mut p = va(a.clone()); p.sub_assign(w, &va(b.clone())); p.into_coeffs() }); }
    { let b = b.clone(); let a = a.clone(); r.add(format!("values.mul_assign/n{}", n), move |w| { let mut p = va(a.clone()); p.mul_assign(w, &va(b.clone())); p.into_coeffs() }); }
    r.add(format!("evaluate_at_domain_for_degree_one/n{}", n), move |w| co(seq(2, 5)).evaluate_at_domain_for_degree_one(w, n as u64).expect("size").into_coeffs());
    r.add(format!("coset_evaluate_at_domain_for_degree_one/n{}", n), move |w| co(seq(2, 5)).coset_evaluate_at_domain_for_degree_one(w, n as u64).expect("size").into_coeffs());
    r.add(format!("precomputed/n{}", n), move |w| { let t = PrecomputedOmegas::<F>::new_for_domain(&Domain::new_for_size(n as u64).expect("size"), w); t.omegas.iter().chain(t.omegas_inv.iter()).chain(t.coset.iter()).cloned().collect() });
    if n > 1 { let a = a.clone(); r.add(format!("commitment/n{}", n), move |_| {
        let t = <Real as IOP<F>>::create(&a);
        let mut v = bytes(&t.get_root());
        for i in 0..n { flat_query(&t.query(i, &a), &mut v) }
        v.push(t.get_challenge_scalar_from_root());
        v
    }); }
    #[cfg(hodor_verif_fft)]
    {
        use hodor::verif_hooks::fft as h;
        let l = log2(n);
        let w0 = root::<F>(l);
        for lc in 0..=l.min(3) {
            let a2 = a.clone(); r.add(format!("parallel_fft/log_cpus={}/n{}", lc, n), move |w| { let mut v = a2.clone(); h::parallel_fft(&mut v, w, &w0, l, lc); v });
            let a2 = a.clone(); r.add(format!("parallel_dit_fft/log_cpus={}/n{}", lc, n), move |w| { let mut v = a2.clone(); h::parallel_dit_fft(&mut v, w, &w0, l, lc, n); v });
            if lc % 2 == 0 && l % 2 == 0 { let a2 = a.clone(); r.add(format!("parallel_radix4_fft/log_cpus={}/n{}", lc, n), move |w| { let mut v = a2.clone(); h::parallel_radix4_fft(&mut v, w, &w0, l, lc); v }); }
            for f in [1usize, 2, 4] { if f <= n {
                let mut a2 = seq::<F>(n / f, 3); a2.resize(n, F::zero());
                r.add(format!("parallel_lde/log_cpus={}/factor={}/n{}", lc, f, n), move |w| { let mut v = a2.clone(); h::parallel_lde(&mut v, w, &w0, l, lc, f); v });
            } }
        }
        let a2 = a.clone(); r.add(format!("best_dit_fft/n{}", n), move |w| { let mut v = a2.clone(); h::best_dit_fft(&mut v, w, &w0, l, n); v });
        if l % 2 == 0 { let a2 = a.clone(); r.add(format!("best_radix4_fft/n{}", n), move |w| { let mut v = a2.clone(); h::best_radix4_fft(&mut v, w, &w0, l); v }); }
    }
    r.0
}

/// regions on vectors of any length
fn length_regions(n: usize) -> Vec<Region> {
    use hodor::utils::poly;
    let mut r = Regions(vec![]);
    let x = fe::<F>(1234567);
    let a: Vec<F> = seq(n, 7);
    let b: Vec<F> = seq(n, 8);
    { let a = a.clone(); r.add(format!("from_roots/n{}", n), move |w| Co::from_roots(a.clone(), w).expect("size").into_coeffs()); }
    { let a = a.clone(); r.add(format!("mul_polynomial_by_scalar/n{}", n), move |_| { let mut v = a.clone(); poly::mul_polynomial_by_scalar(&mut v, x); v }); }
    { let (a, b) = (a.clone(), b.clone()); r.add(format!("mul_add_polynomials/n{}", n), move |_| { let mut v = a.clone(); poly::mul_add_polynomials(&mut v, &b, x); v }); }
    { let a = a.clone(); r.add(format!("fft::distribute_powers/n{}", n), move |w| { let mut v = a.clone(); hodor::fft::distribute_powers(&mut v, w, x); v }); }
    { let a = a.clone(); r.add(format!("evaluate_at_consequitive_powers/n{}", n), move |_| vec![poly::evaluate_at_consequitive_powers(&a, x, fe(77))]); }
    let mut r = r.free();
    // several regions one after the other
    r[0].free = false;
    r
}

/// extensions of `n` coefficients by `k`
fn extension_regions(n: usize, k: usize) -> Vec<Region> {
    let mut r = Regions(vec![]);
    type E = fn(Co, &Worker, usize) -> Result<Va, hodor::SynthesisError>;
    let list: Vec<(&'static str, bool, E)> = vec![
        ("lde", true, |p, w, f| p.lde(w, f)),
        ("filtering_lde", false, |p, w, f| p.filtering_lde(w, f)),
        ("lde_using_multiple_cosets_naive", false, |p, w, f| p.lde_using_multiple_cosets_naive(w, f)),
        ("lde_using_multiple_cosets", true, |p, w, f| p.lde_using_multiple_cosets(w, f)),
        ("coset_lde", true, |p, w, f| p.coset_lde(w, f)),
        ("coset_filtering_lde", false, |p, w, f| p.coset_filtering_lde(w, f)),
        ("coset_lde_using_multiple_cosets_naive", false, |p, w, f| p.coset_lde_using_multiple_cosets_naive(w, f)),
        ("coset_lde_using_multiple_cosets", true, |p, w, f| p.coset_lde_using_multiple_cosets(w, f)),
    ];
    for (name, known, f) in list {
        let a: Vec<F> = seq(n, 9);
        r.add(format!("{}/n{}/x{}", name, n, k), move |w| f(co(a.clone()), w, k).expect("size").into_coeffs());
        if known { r.known(k) }
    }
    r.0
}

/// both folding provers
fn fri_regions(d: usize, l: usize, o: usize) -> Vec<Region> {
    type Fri = NaiveFriIop<F, Real>;
    let mut r = Regions(vec![]);
    let v = eval_all(&seq::<F>(d, 10), d * l, F::one());
    { let v = v.clone(); r.add(format!("proof_from_lde_by_values/{}x{}->{}", d, l, o), move |w| {
        let first = va(v.clone());
        let p = Fri::proof_from_lde_by_values(&first, l, o, w).expect("proof");
        let mut f = flat_proto(&p);
        flat_fri(&<Fri as FriIop<F>>::prototype_into_proof(p, &first, 1).expect("opening"), &mut f);
        f
    }); }
    { let v = v.clone(); r.add(format!("proof_from_lde_through_coefficients/{}x{}->{}", d, l, o), move |w| flat_proto(&Fri::proof_from_lde_through_coefficients(va(v.clone()), l, o, w).expect("proof"))); r.skip(&[l]); }
    r.0
}

/// the prover, in parts and as a whole
fn prover_regions(i: &Inst<F>, lde: usize, out: usize) -> Vec<Region> {
    let mut r = Regions(vec![]);
    let name = format!("{}/n{}/x{}->{}", i.name, i.props.num_rows, lde, out);
    let rf = Ref::new(&i.props);
    let (n1, n2, cd) = (rf.t * lde, rf.cdom * lde, rf.cdom);
    let cf = i.cfactor();
    { let i = i.clone(); r.add(format!("check trace/{}", name), move |w| vec![num(<ARPInstance<F, PerRegisterARP> as ARP<F>>::is_satisfied(&i.props, &i.witness, w).is_ok() as usize)]); }
    { let i = i.clone(); r.add(format!("register polynomials/{}", name), move |w| {
        let arp = <ARPInstance<F, PerRegisterARP> as ARP<F>>::from_instance(i.props.clone(), w).expect("instance");
        arp.calculate_witness_polys(i.witness.clone(), w).expect("witness").into_iter().flat_map(|p| p.into_coeffs()).collect()
    }); }
    { let i = i.clone(); r.add(format!("composition/{}", name), move |w| {
        let arp = <ARPInstance<F, PerRegisterARP> as ARP<F>>::from_instance(i.props.clone(), w).expect("instance");
        let polys = arp.calculate_witness_polys(i.witness.clone(), w).expect("witness");
        let ali = ALIInstance::from_arp(arp, w).expect("instance");
        ali.calculate_g(&mut Tb::new(), polys, w).expect("composition").into_coeffs()
    }); r.skip(&[cf]); }
    { let i = i.clone(); let polys = rf.polys(&i.witness); let g = seq::<F>(cd, 11);
      let tf: Vec<Vec<F>> = polys.iter().map(|c| eval_all(c, n1, F::one())).collect(); let tg = eval_all(&g, n2, F::one());
      r.add(format!("quotients/{}", name), move |w| {
        let arp = <ARPInstance<F, PerRegisterARP> as ARP<F>>::from_instance(i.props.clone(), w).expect("instance");
        let ali = ALIInstance::from_arp(arp, w).expect("instance");
        let fp: Vec<Co> = polys.iter().map(|c| co(c.clone())).collect();
        let fl: Vec<Va> = tf.iter().map(|t| va(t.clone())).collect();
        let (h1, h2, c, gz) = ali.calculate_deep(&fp, &fl, &co(g.clone()), &va(tg.clone()), &mut Tb::new(), w).expect("quotients");
        let mut v = h1.into_coeffs();
        v.extend(h2.into_coeffs()); v.extend(c); v.push(gz);
        v
    }); r.skip(&[cf]); }
    { let i = i.clone(); r.add(format!("proof/{}", name), move |_| {
        let p = Pr::<F, Tb, Real>::new(i.props.clone(), lde, out).expect("prover");
        flat_proof(&p.prove(i.witness.clone()).expect("proof"))
    }); r.skip(&[cf, lde]); }
    r.0
}

fn reference(r: &Region) -> Result<Vec<F>, Fail> { quiet(|| on(1, Order::Fifo, |w| (r.run)(w))).map_err(|m| format!("{}: on one CPU: {}", r.name, m).into()) }

/// the same result, or the one of the recorded finding
fn same(ctx: &mut Ctx, r: &Region, cpus: usize, got: &[F], want: &[F]) -> Result<(), String> {
    if got == want { return Ok(()) }
    if let Some(k) = r.known { if d1(cpus, k) && got == &d1_values(want, cpus, k)[..] {
        let n = r.name.split('/').next().unwrap_or("");
        ctx.finding(&format!("D1/{}", n), &format!("{} depends on the number of CPUs ({} CPUs)", r.name, cpus));
        ctx.outcome("values as in finding D1");
        return Ok(())
    } }
    let i = got.iter().zip(want).position(|(a, b)| a != b);
    Err(format!("{} on {} CPUs: {} elements instead of {}, first difference at {:?}", r.name, cpus, got.len(), want.len(), i))
}
fn usable(r: &Region, cpus: usize) -> bool { !r.skip.iter().any(|k| d1(cpus, *k)) }

fn counts() -> Vec<usize> { (1..=40).chain([48, 63, 64, 65, 100, 128]).collect() }

/// every CPU count
fn all_counts(ctx: &mut Ctx, r: &Region) -> R {
    let want = reference(r)?;
    for c in counts() { if !usable(r, c) { continue } for o in ORDERS {
        ctx.step(1);
        let got = quiet(|| on(c, o, |w| (r.run)(w))).map_err(|m| format!("{} on {} CPUs, {:?}: {}", r.name, c, o, m))?;
        same(ctx, r, c, &got, &want).map_err(|m| format!("{}, {:?}", m, o))?;
        ctx.state(&(c, format!("{:?}", o)));
        ctx.trace();
    } }
    Ok(())
}

/// every order of tasks, or interleaving of threads, up to a bound
fn schedules(ctx: &mut Ctx, r: &Region, threads: bool, free: bool, cpus: usize, bound: usize, cap: usize) -> R {
    if !usable(r, cpus) { return Ok(()) }
    let want = reference(r)?;
    let run = r.run.clone();
    let body = move || { let w = Worker::new(); run(&w) };
    // deeper and deeper, as far as the bound or the number of executions allows
    let mut done: Option<(usize, sched::Explored)> = None;
    for b in 1..=bound {
        let (ex, res) = {
            let mut check = |got: std::thread::Result<Vec<F>>, ch: &[usize]| -> Result<(), String> {
                ctx.state(&(threads, cpus, ch.to_vec()));
                match got {
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        Err(format!("{} on {} CPUs fails: {}", r.name, cpus, m))
                    }
                    Ok(g) => same(ctx, r, cpus, &g, &want),
                }
            };
            if threads { sched::with_field_points(|| sched::explore(true, free, cpus, b, cap, &body, &mut check)) } else { sched::explore(false, true, cpus, b, cap, &body, &mut check) }
        };
        sched::reset();
        ctx.step(ex.points as u64);
        ctx.traces += ex.runs as u64;
        if ex.diverged > 0 { ctx.outcome("a schedule could not be repeated exactly") }
        res.map_err(|m| Fail::from(m))?;
        if ex.capped { if done.is_none() { ctx.capped = true; } break }
        // every choice sequence was within the bound: nothing more to find
        let all = done.as_ref().map_or(false, |(_, p)| p.runs == ex.runs);
        done = Some((b, ex));
        if all { break }
    }
    if let Some((b, ex)) = done {
        ctx.outcome(&format!("{} complete up to {} deviations", if threads { "interleavings" } else { "task orders" }, b));
        ctx.sample(|| format!("{} {} on {} CPUs: all {} executions with up to {} deviations, up to {} choices in one", r.name, if threads { "interleavings" } else { "task orders" }, cpus, ex.runs, b, ex.max_points));
    }
    Ok(())
}

fn find(n: usize, name: &str) -> Inst<F> { family::<F>(n).into_iter().find(|i| i.name == name).expect("instance") }

fn c16(c: &mut Cases) {
    let thorough = c.thorough;
    let mut add = |rs: Vec<Region>, orders: &[(usize, usize)], threads: &[(usize, usize)], cap: usize| for r in rs {
        let r2 = r.clone();
        c.add(format!("counts/{}", r.name), move |ctx| all_counts(ctx, &r2));
        for (cpus, bound) in orders.iter().cloned() { let r = r.clone(); c.add(format!("orders/cpus={}/deviations={}/{}", cpus, bound, r.name), move |ctx| schedules(ctx, &r, false, true, cpus, bound, cap)); }
        for (cpus, bound) in threads.iter().cloned() { let r = r.clone(); c.add(format!("threads/cpus={}/{}={}/{}", cpus, if r.free && cpus <= 2 { "preemptions" } else { "delays" }, bound, r.name), move |ctx| schedules(ctx, &r, true, r.free && cpus <= 2, cpus, bound, cap)); }
    };
    let cap = if thorough { 300_000 } else { 20_000 };
    for n in [1usize, 2, 4, 8, 16, 32, 64, 256] {
        let (o, t): (&[(usize, usize)], &[(usize, usize)]) = match n {
            4 => (&[(2, 9), (3, 9), (4, 9)], if thorough { &[(2, 2), (3, 2), (4, 1)] } else { &[(2, 1), (3, 1)] }),
            8 => (&[(2, 9), (3, 3), (8, 2)], if thorough { &[(2, 2), (3, 1), (4, 1)] } else { &[(2, 1)] }),
            16 => (&[(4, 2), (5, 2)], if thorough { &[(2, 1)] } else { &[] }),
            32 if thorough => (&[(7, 2), (16, 2)], &[]),
            _ => (&[], &[]),
        };
        add(vector_regions(n), o, t, cap);
    }
    for n in 0..=(if thorough { 40usize } else { 20 }) {
        let (o, t): (&[(usize, usize)], &[(usize, usize)]) = match n {
            3 => (&[(2, 9), (3, 9)], if thorough { &[(2, 3), (3, 2)] } else { &[(2, 2), (3, 1)] }),
            5 => (&[(2, 9), (4, 9)], if thorough { &[(2, 2), (3, 2)] } else { &[(2, 1), (3, 1)] }),
            7 => (&[(3, 3), (5, 3)], if thorough { &[(2, 2)] } else { &[] }),
            _ => (&[], &[]),
        };
        add(length_regions(n), o, t, cap);
    }
    for n in [1usize, 2, 4, 8, 16, 32] { for k in [1usize, 2, 4, 8, 16] {
        let (o, t): (&[(usize, usize)], &[(usize, usize)]) = match (n, k) {
            (4, 2) => (&[(2, 4), (3, 3)], if thorough { &[(2, 2), (3, 1)] } else { &[(2, 1)] }),
            (4, 4) => (&[(2, 3), (4, 2), (5, 2)], if thorough { &[(2, 1), (3, 1)] } else { &[] }),
            (2, 4) => (&[(3, 2)], if thorough { &[(2, 1), (4, 1)] } else { &[(4, 1)] }),
            (8, 8) => (&[(3, 1)], &[]),
            _ => (&[], &[]),
        };
        add(extension_regions(n, k), o, t, cap);
    } }
    for (d, l, o) in [(2usize, 2usize, 1usize), (4, 2, 1), (4, 4, 1), (8, 2, 2), (8, 4, 1), (16, 4, 2), (32, 2, 1)] {
        let (os, ts): (&[(usize, usize)], &[(usize, usize)]) = match (d, l) {
            (2, 2) => (&[(2, 3), (3, 2)], &[(2, 1)]),
            (4, 2) => (&[(2, 2), (3, 2), (4, 1)], if thorough { &[(2, 1), (3, 1)] } else { &[] }),
            (8, 2) => (&[(2, 1), (4, 1)], &[]),
            _ => (&[], &[]),
        };
        add(fri_regions(d, l, o), os, ts, cap);
    }
    for (name, n, lde, out) in [("fibonacci", 2usize, 2usize, 1usize), ("fibonacci", 4, 2, 1), ("fibonacci", 5, 4, 2), ("fibonacci", 8, 16, 1), ("power2", 4, 2, 1), ("power2", 2, 2, 1), ("power3", 5, 4, 1), ("products", 4, 4, 1), ("mixture", 6, 2, 2), ("two steps", 7, 4, 4), ("unused", 9, 8, 1), ("17 registers", 4, 2, 1), ("no transitions", 3, 4, 1), ("covers nothing", 4, 4, 2), ("bits", 16, 4, 4)] {
        let (os, ts): (&[(usize, usize)], &[(usize, usize)]) = match (name, n) {
            ("fibonacci", 2) => (if thorough { &[(2, 2), (3, 2)] } else { &[(2, 1), (3, 1)] }, if thorough { &[(2, 1)] } else { &[] }),
            ("power2", 2) => (if thorough { &[(2, 2), (3, 2), (4, 2)] } else { &[(2, 1), (3, 1), (4, 1)] }, &[(2, 1)]),
            ("power2", 4) => (&[(2, 1), (4, 1)], if thorough { &[(2, 1)] } else { &[] }),
            ("fibonacci", 4) => (&[(2, 1), (3, 1)], &[]),
            ("mixture", 6) if thorough => (&[(2, 1), (3, 1)], &[]),
            _ => (&[], &[]),
        };
        add(prover_regions(&find(n, name), lde, out), os, ts, cap);
    }
}
