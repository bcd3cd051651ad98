//! Plain definitions, written for clarity: the oracle side of the checks.
use ff::{Field, PrimeField};

pub fn add<F: Field>(a: F, b: F) -> F { let mut t = a; t.add_assign(&b); t }
pub fn sub<F: Field>(a: F, b: F) -> F { let mut t = a; t.sub_assign(&b); t }
pub fn mul<F: Field>(a: F, b: F) -> F { let mut t = a; t.mul_assign(&b); t }
pub fn neg<F: Field>(a: F) -> F { let mut t = a; t.negate(); t }
pub fn inv<F: Field>(a: F) -> F { a.inverse().expect("reference: inverse of zero") }
pub fn pw<F: Field>(a: F, e: u64) -> F {
    let mut r = F::one();
    let mut b = a;
    let mut e = e;
    while e > 0 { if e & 1 == 1 { r = mul(r, b) } b = mul(b, b); e >>= 1 }
    r
}
pub fn fe<F: PrimeField>(v: u64) -> F {
    // double and add: also right for fields smaller than v
    let mut r = F::zero();
    for i in (0..64).rev() { r = add(r, r); if v >> i & 1 == 1 { r = add(r, F::one()) } }
    r
}

/// generator of the subgroup of order 2^k
pub fn root<F: PrimeField>(k: u32) -> F {
    let mut g = F::root_of_unity();
    for _ in k..F::S { g = mul(g, g) }
    g
}
pub fn log2(n: usize) -> u32 { assert!(n.is_power_of_two()); n.trailing_zeros() }
pub fn powers<F: Field>(g: F, n: usize) -> Vec<F> { let mut v = Vec::with_capacity(n); let mut x = F::one(); for _ in 0..n { v.push(x); x = mul(x, g) } v }
pub fn domain<F: PrimeField>(n: usize) -> Vec<F> { powers(root::<F>(log2(n)), n) }

pub fn eval<F: Field>(c: &[F], x: F) -> F { c.iter().rev().fold(F::zero(), |a, b| add(mul(a, x), *b)) }
/// values at shift * g^i, i < n, g of order n
pub fn eval_all<F: PrimeField>(c: &[F], n: usize, shift: F) -> Vec<F> {
    if n <= 128 || c.len() <= 32 { return eval_all_plainly(c, n, shift) }
    let mut a = vec![F::zero(); n];
    for (i, (x, s)) in c.iter().zip(powers(shift, c.len())).enumerate() { a[i % n] = add(a[i % n], mul(*x, s)) }
    rec_fft(&a, root::<F>(log2(n)))
}
pub fn eval_all_plainly<F: PrimeField>(c: &[F], n: usize, shift: F) -> Vec<F> { domain::<F>(n).into_iter().map(|x| eval(c, mul(shift, x))).collect() }
/// values at 1, w, w^2, .. for n = len, by recursion on even and odd coefficients
pub fn rec_fft<F: Field>(a: &[F], w: F) -> Vec<F> {
    let n = a.len();
    if n == 1 { return a.to_vec() }
    let e: Vec<F> = a.iter().step_by(2).cloned().collect();
    let o: Vec<F> = a.iter().skip(1).step_by(2).cloned().collect();
    let (e, o) = (rec_fft(&e, mul(w, w)), rec_fft(&o, mul(w, w)));
    let mut r = vec![F::zero(); n];
    let mut x = F::one();
    for i in 0..n / 2 { let t = mul(x, o[i]); r[i] = add(e[i], t); r[i + n / 2] = sub(e[i], t); x = mul(x, w) }
    r
}
pub fn eval_powers<F: Field>(c: &[F], g: F, n: usize) -> Vec<F> { powers(g, n).into_iter().map(|x| eval(c, x)).collect() }

pub fn pmul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() { return vec![] }
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() { for (j, y) in b.iter().enumerate() { r[i + j] = add(r[i + j], mul(*x, *y)) } }
    r
}
pub fn padd<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    (0..a.len().max(b.len())).map(|i| add(a.get(i).copied().unwrap_or(F::zero()), b.get(i).copied().unwrap_or(F::zero()))).collect()
}
pub fn pscale<F: Field>(a: &[F], s: F) -> Vec<F> { a.iter().map(|x| mul(*x, s)).collect() }
pub fn ptrim<F: Field>(mut a: Vec<F>) -> Vec<F> { while a.last().map_or(false, |x| x.is_zero()) { a.pop(); } a }
pub fn degree<F: Field>(a: &[F]) -> isize { a.iter().rposition(|x| !x.is_zero()).map_or(-1, |i| i as isize) }
/// quotient and remainder
pub fn pdiv<F: Field>(a: &[F], b: &[F]) -> (Vec<F>, Vec<F>) {
    let b = ptrim(b.to_vec());
    let mut r = ptrim(a.to_vec());
    if r.len() < b.len() { return (vec![], r) }
    let li = inv(b[b.len() - 1]);
    let mut q = vec![F::zero(); r.len() - b.len() + 1];
    for i in (0..q.len()).rev() {
        let c = mul(r[i + b.len() - 1], li);
        q[i] = c;
        for (j, y) in b.iter().enumerate() { r[i + j] = sub(r[i + j], mul(c, *y)) }
    }
    r.truncate(b.len() - 1);
    (q, ptrim(r))
}
pub fn lagrange<F: Field>(xs: &[F], ys: &[F]) -> Vec<F> {
    let mut r = vec![F::zero(); xs.len()];
    for i in 0..xs.len() {
        let mut num = vec![F::one()];
        let mut den = F::one();
        for j in 0..xs.len() { if i != j { num = pmul(&num, &[neg(xs[j]), F::one()]); den = mul(den, sub(xs[i], xs[j])) } }
        let c = mul(ys[i], inv(den));
        r = padd(&r, &pscale(&num, c));
    }
    r
}
/// coefficients from the values at shift * g^i
pub fn interpolate_domain<F: PrimeField>(v: &[F], shift: F) -> Vec<F> {
    let n = v.len();
    let gi = inv(root::<F>(log2(n)));
    let ni = inv(fe::<F>(n as u64));
    let si = inv(shift);
    let u = if n <= 128 { eval_powers(v, gi, n) } else { rec_fft(v, gi) };
    u.into_iter().zip(powers(si, n)).map(|(x, s)| mul(mul(x, ni), s)).collect()
}

/// a simple deterministic sequence of field elements (not random: a counter through a fixed map)
pub fn seq<F: PrimeField>(n: usize, salt: u64) -> Vec<F> {
    let mut x = salt.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let mut z = x; z ^= z >> 29; z = z.wrapping_mul(0xBF58476D1CE4E5B9); z ^= z >> 32; fe::<F>(z) }).collect()
}
