//! C09 vector commitment, C10 openings, C11 transcripts, C24 query positions
#![allow(dead_code, unused_imports)]
use checks::bigf;
use checks::field::*;
use checks::refs::*;
use checks::*;
use ff::{Field, PrimeField, PrimeFieldRepr};
use hodor::arp::PerRegisterARP;
use hodor::fri::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::trivial_coset_combiner::*;
use hodor::iop::*;
use hodor::transcript::*;
use hodor::verifier::Verifier;
use mcrt::engine::*;
use mcrt::ensure;
use mcrt::sched::Order;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

type Sk = bigf::stark::Fr;
type H = [u8; 32];
type Iop<F> = TrivialBlake2sIOP<F>;
type Tree<F> = Blake2sIopTree<F>;

fn main() {
    mcrt::engine::main(&[
        Property { id: "C09", build: c09, space: "all power-of-two lengths 2..4096 (16384 thorough), further ones up to 2^17 (2^21 thorough) with fewer positions, x CPU counts 1..100 x three task orders x every position; all vectors over {0,1,2} of lengths 2, 4, 8; every single-element change and transposition up to length 64; all single-bit differences of hash inputs; fields of 8, 16 and 32 byte representations",
            assumptions: &["collisions of the hash function do not occur", "vectors have at least two elements (a tree of one leaf is outside the statement)", "the hash function of the tree is taken from the code, its injectivity on the explored inputs is checked"] },
        Property { id: "C10", build: c10, space: "all power-of-two lengths 2..64 (256 thorough) x every position x {every other claimed position, in and out of range up to all 64-bit patterns congruent to it; every other value of the vector and bit-changed values; every single bit of every path element and of the root; truncated, extended, permuted, foreign paths; roots of other vectors}",
            assumptions: &["collisions of the hash function do not occur"] },
        Property { id: "C11", build: c11, space: "all histories of commits, draws and clones up to depth 5 (6 thorough) over an alphabet of 10 operations, compared pairwise through a table of normal forms; for fields of 9 to 255 bits; histories of up to 900 operations that repeat every sequence of up to three, and with each of them changed; commits of up to 5000 bytes; challenge scalars of all single-bit, all-zero, all-one and boundary roots",
            assumptions: &["splitting one byte string over several commits, and committing exactly the bytes of a challenge instead of drawing it, carry no information", "collisions of the hash function do not occur; scalar collisions are only excluded for fields above 60 bits"] },
        Property { id: "C24", build: c24, space: "all extended domain sizes 4..2^13 (2^16 thorough) x all factors x all residues of the challenge, with low and high 64-bit parts, and boundary strings; boundary residues of all larger sizes up to 2^62",
            assumptions: &[] },
    ])
}

// ------------------------------------------------------------------------------------------ C09

fn leaf<F: PrimeField>(v: &F) -> H { <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_leaf(v) }
fn node<F: PrimeField>(a: &H, b: &H, level: usize) -> H { <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_node(&[*a, *b], level) }

/// all levels, leaves first
fn levels<F: PrimeField>(v: &[F]) -> Vec<Vec<H>> {
    let mut l = vec![v.iter().map(leaf::<F>).collect::<Vec<_>>()];
    let depth = log2(v.len()) as usize;
    for d in (0..depth).rev() {
        let p = l.last().unwrap();
        let n: Vec<H> = (0..p.len() / 2).map(|i| node::<F>(&p[2 * i], &p[2 * i + 1], d)).collect();
        l.push(n);
    }
    l
}
fn path_of(l: &[Vec<H>], i: usize) -> Vec<H> { (0..l.len() - 1).map(|d| l[d][(i >> d) ^ 1]).collect() }
fn root_of(l: &[Vec<H>]) -> H { l[l.len() - 1][0] }

fn check_tree<F: PrimeField>(v: &[F], cpus: usize, o: Order, ctx: &mut Ctx, positions: &[usize]) -> R {
    let l = levels(v);
    ctx.step(1);
    let (iop, tree) = on(cpus, o, |_| (Iop::<F>::create(v), Tree::<F>::create(v)));
    let what = || format!("{} elements, {} CPUs, {:?}", v.len(), cpus, o);
    ensure!(iop.get_root() == root_of(&l), "{}: root differs from the tree over the elements", what());
    ensure!(tree.get_root() == root_of(&l) && tree.size() == v.len() as u64, "{}: tree differs", what());
    let depth = log2(v.len()) as usize;
    for &i in positions {
        ctx.step(1);
        let q = iop.query(i, v);
        ensure!(q.natural_index() == i && q.tree_index() == i, "{}: opening of {} is for {}", what(), i, q.natural_index());
        ensure!(q.value() == v[i], "{}: opening of {} carries {} instead of {}", what(), i, q.value(), v[i]);
        ensure!(q.path().len() == depth, "{}: opening of {} has {} siblings instead of {}", what(), i, q.path().len(), depth);
        ensure!(q.path() == &path_of(&l, i)[..], "{}: siblings of {} are not those of the tree", what(), i);
        ensure!(Iop::<F>::verify_query(&q, &iop.get_root()), "{}: opening of {} does not verify", what(), i);
        ensure!(tree.get_path(i, v) == path_of(&l, i), "{}: path of {} differs", what(), i);
        ensure!(Tree::<F>::verify(&tree.get_root(), &v[i], &tree.get_path(i, v), i), "{}: path of {} does not verify", what(), i);
        ctx.state(&(v.len(), i));
        ctx.trace();
    }
    let a = on(cpus, o, |_| iop.get_challenge_scalar_from_root());
    ensure!(a == Iop::<F>::encode_root_into_challenge(&iop.get_root()) && a == tree.get_challenge_scalar_from_root(), "{}: challenge is not that of the root", what());
    Ok(())
}

fn all_over<F: PrimeField>(n: usize, alphabet: &[F], mut f: impl FnMut(&[F]) -> R) -> R {
    let total = alphabet.len().pow(n as u32);
    for k in 0..total {
        let mut x = k;
        let v: Vec<F> = (0..n).map(|_| { let e = alphabet[x % alphabet.len()]; x /= alphabet.len(); e }).collect();
        f(&v)?;
    }
    Ok(())
}

fn c09_field<F: PrimeField>(c: &mut Cases, name: &'static str, max: u32) {
    for k in 1..=max {
        for (cpus, o) in machines(c.thorough || k <= 7) {
            c.add(format!("tree/{}/2^{}/cpus={}/{:?}", name, k, cpus, o), move |ctx| {
                let n = 1usize << k;
                let all: Vec<usize> = (0..n).collect();
                let some: Vec<usize> = vec![0, 1, n / 2 - 1, n / 2, n - 1];
                check_tree::<F>(&seq(n, 5), cpus, o, ctx, &all)?;
                check_tree::<F>(&vec![F::zero(); n], cpus, o, ctx, &some)?;
                check_tree::<F>(&vec![neg(F::one()); n], cpus, o, ctx, &some)?;
                check_tree::<F>(&(0..n).map(|i| fe::<F>(i as u64)).collect::<Vec<_>>(), cpus, o, ctx, &some)
            });
        }
    }
    for n in [2usize, 4, 8] {
        c.add(format!("all-vectors/{}/{}", name, n), move |ctx| {
            let mut roots: HashMap<H, Vec<F>> = HashMap::new();
            all_over::<F>(n, &[F::zero(), F::one(), fe(2)], |v| {
                let r = on(3, Order::Lifo, |_| Iop::<F>::create(v).get_root());
                ctx.step(1); ctx.state(&r); ctx.trace();
                let again = on(2, Order::Eager, |_| Iop::<F>::create(&v.to_vec()).get_root());
                ensure!(r == again, "{:?} has two roots", v);
                ensure!(on(1, Order::Fifo, |_| Iop::<F>::create(v) == Iop::<F>::create(v)), "{:?} is not equal to itself", v);
                if let Some(o) = roots.insert(r, v.to_vec()) { return Err(format!("{:?} and {:?} have the same root", v, o).into()) }
                Ok(())
            })
        });
    }
    for k in 1..=6u32 {
        c.add(format!("differences/{}/2^{}", name, k), move |ctx| {
            let n = 1usize << k;
            let v: Vec<F> = (0..n).map(|i| fe::<F>(3 * i as u64 + 1)).collect();
            let r = on(4, Order::Fifo, |_| Iop::<F>::create(&v).get_root());
            let mut see = |w: &[F], what: String| -> R {
                ctx.step(1); ctx.state(&what); ctx.trace();
                let q = on(4, Order::Lifo, |_| Iop::<F>::create(w).get_root());
                ensure!((q == r) == (w == &v[..]), "{}: roots equal: {}, vectors equal: {}", what, q == r, w == &v[..]);
                Ok(())
            };
            for i in 0..n {
                for d in [F::one(), neg(F::one()), fe(7)] { let mut w = v.clone(); w[i] = add(w[i], d); see(&w, format!("element {} plus {}", i, d))?; }
                for j in 0..i { let mut w = v.clone(); w.swap(i, j); see(&w, format!("elements {} and {} swapped", i, j))?; }
            }
            if n > 2 { see(&v[..n / 2], "first half".into())?; see(&v[n / 2..], "second half".into())?; }
            let mut w = v.clone();
            w.extend(v.clone());
            see(&w, "doubled".into())
        });
    }
    c.add(format!("hasher/{}", name), |ctx| {
        // single-bit differences of values, and all small values
        let mut seen: HashMap<H, String> = HashMap::new();
        let mut vals: Vec<F> = (0..257u64).map(fe::<F>).collect();
        let mut x = F::one();
        for _ in 0..F::NUM_BITS { vals.push(x); vals.push(neg(x)); vals.push(add(x, F::one())); x = add(x, x); }
        let distinct: BTreeSet<String> = vals.iter().map(|v| format!("{}", v)).collect();
        for v in vals.iter() { ctx.step(1); ctx.state(&format!("{}", v)); seen.insert(leaf::<F>(v), format!("{}", v)); }
        ensure!(seen.len() == distinct.len(), "{} elements give {} leaf hashes", distinct.len(), seen.len());
        for v in vals.iter() {
            let e = <Blake2sLeafEncoder<F> as LeafEncoder<F>>::encode_leaf(v);
            ensure!(<Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_encoded_leaf(&e) == leaf::<F>(v), "hash of encoded {} differs", v);
        }
        let (a, b) = (leaf::<F>(&F::one()), leaf::<F>(&F::zero()));
        let mut nodes: HashSet<H> = HashSet::new();
        let mut count = 0;
        for (x, y) in [(a, b), (b, a), (a, a), (b, b)] { nodes.insert(node::<F>(&x, &y, 0)); count += 1; }
        for bit in 0..256 { let mut z = a; z[bit / 8] ^= 1 << (bit % 8); for (x, y) in [(z, b), (b, z), (z, z)] { ctx.step(1); ctx.state(&(bit, "node")); nodes.insert(node::<F>(&x, &y, 0)); count += 1; } }
        for v in seen.keys() { nodes.insert(*v); count += 1; }
        ensure!(nodes.len() == count, "{} hash inputs give {} hashes", count, nodes.len());
        ctx.trace();
        Ok(())
    });
    c.add(format!("combiner/{}", name), |ctx| {
        for k in 1..=8u32 {
            let n = 1usize << k;
            let v: Vec<F> = (0..n).map(|i| fe::<F>(i as u64 + 1)).collect();
            let d = domain::<F>(n);
            for i in 0..n {
                ctx.step(1); ctx.state(&(n, i)); ctx.trace();
                type T<F> = TrivialCombiner<F>;
                ensure!(*Iop::<F>::get_for_natural_index(&v, i) == v[i] && *<T<F> as CosetCombiner<F>>::get_for_natural_index(&v, i) == v[i], "element {}", i);
                let t = <T<F> as CosetCombiner<F>>::natural_index_into_tree_index(i);
                ensure!(<T<F> as CosetCombiner<F>>::tree_index_into_natural_index(t) == i, "index {} does not come back", i);
                ensure!(*Iop::<F>::get_for_tree_index(&v, t) == v[i] && *<T<F> as CosetCombiner<F>>::get_for_tree_index(&v, t) == v[i], "tree element {}", i);
                let p = <T<F> as CosetCombiner<F>>::get_coset_for_natural_index(i, n);
                ensure!(p.len() == <T<F> as CosetCombiner<F>>::COSET_SIZE && p.contains(&i) && p[0] < p[1] && p[1] < n, "pair {:?} of {}", p, i);
                ensure!(d[p[0]] == neg(d[p[1]]), "pair {:?} in {} is not a point and its negation", p, n);
                ensure!(<T<F> as CosetCombiner<F>>::get_coset_for_tree_index(t, n) == p, "tree pair of {}", i);
            }
        }
        Ok(())
    });
}

fn c09(c: &mut Cases) {
    let t = c.thorough;
    c09_field::<F257>(c, "F257", if t { 14 } else { 12 });
    c09_field::<Sk>(c, "stark", if t { 14 } else { 12 });
    c09_field::<bigf::w65::Fr>(c, "65bit", if t { 12 } else { 10 });
    // long vectors: all CPU counts on few positions, all positions on few CPU counts
    for k in if t { 15..=18u32 } else { 13..=15u32 } { for (j, m) in machines(t).into_iter().enumerate() {
        if !t && j % 4 != k as usize % 4 { continue }
        c.add(format!("long/2^{}/cpus={}/{:?}", k, m.0, m.1), move |ctx| {
            let n = 1usize << k;
            let mut at: Vec<usize> = (0..k).flat_map(|b| [1usize << b, (1 << b) - 1, n - (1 << b)]).collect();
            if j < 4 { at.extend((0..n).step_by(if j == 0 { 1 } else { 37 })) }
            check_tree::<F257>(&seq(n, 5), m.0, m.1, ctx, &at)?;
            if k <= 13 { check_tree::<Sk>(&seq(n, 5), m.0, m.1, ctx, &at[..at.len().min(100)])? }
            Ok(())
        });
    } }
    // more than 2^16 elements: few machines
    for k in if t { 19..=21u32 } else { 15..=17u32 } { for m in [(1, Order::Fifo), (3, Order::Lifo), (8, Order::Eager)] {
        c.add(format!("large/2^{}/cpus={}/{:?}", k, m.0, m.1), move |ctx| {
            let n = 1usize << k;
            let at: Vec<usize> = (0..k).flat_map(|b| [1usize << b, (1 << b) - 1, n - (1 << b)]).chain((0..n).step_by(n / 61)).collect();
            check_tree::<F257>(&seq(n, 5), m.0, m.1, ctx, &at)?;
            if m.0 == 3 { check_tree::<Sk>(&seq(n, 5), m.0, m.1, ctx, &at[..at.len().min(100)])? }
            // a single difference, near every power of two
            if m.0 == 8 {
                let v: Vec<F62> = seq(n, 6);
                let root = on(m.0, m.1, |_| Iop::<F62>::create(&v).get_root());
                for &i in at.iter().step_by(9) {
                    let mut w = v.clone();
                    w[i] = add(w[i], fe(1));
                    ctx.step(1);
                    ensure!(on(m.0, m.1, |_| Iop::<F62>::create(&w).get_root()) != root, "{} elements: the root does not depend on element {}", n, i);
                }
            }
            Ok(())
        });
    } }
}

// ------------------------------------------------------------------------------------------ C10

fn verifies<F: PrimeField>(root: &H, value: &F, path: &[H], index: usize) -> Result<bool, Fail> {
    let a = quiet(|| Tree::<F>::verify(root, value, path, index)).map_err(|m| Fail::from(format!("tree check of position {} with {} siblings: {}", index, path.len(), m)))?;
    #[cfg(hodor_verif_query)]
    {
        let q = TrivialBlake2sIopQuery::<F>::verif_from_parts(index, *value, path.to_vec());
        let b = quiet(|| Iop::<F>::verify_query(&q, root)).map_err(|m| Fail::from(format!("opening of position {} with {} siblings: {}", index, path.len(), m)))?;
        if a != b { return Err(format!("tree check says {}, opening check says {}", a, b).into()) }
    }
    Ok(a)
}

fn c10_field<F: PrimeField>(c: &mut Cases, name: &'static str, max: u32) {
    let thorough = c.thorough;
    for k in 1..=max {
        for kind in 0..3u64 {
            for part in 0..(1usize << k).min(8) {
                c.add(format!("{}/2^{}/kind={}/part={}", name, k, kind, part), move |ctx| {
                    let n = 1usize << k;
                    let v: Vec<F> = match kind { 0 => (0..n).map(|i| fe::<F>(i as u64 * 5 + 1)).collect(), 1 => vec![fe(3); n], _ => seq(n, 77) };
                    let l = levels(&v);
                    let root = on(3, Order::Lifo, |_| Iop::<F>::create(&v).get_root());
                    let other = on(3, Order::Lifo, |_| Iop::<F>::create(&v.iter().rev().cloned().collect::<Vec<_>>()).get_root());
                    let longer = on(3, Order::Lifo, |_| { let mut w = v.clone(); w.extend(v.clone()); Iop::<F>::create(&w).get_root() });
                    let paths: Vec<Vec<H>> = (0..n).map(|i| path_of(&l, i)).collect();
                    for i in (0..n).filter(|i| i % 8 == part) {
                        let mut see = |r: &H, x: F, p: &[H], j: usize, what: &dyn Fn() -> String| -> R {
                            ctx.step(1);
                            let got = verifies(r, &x, p, j)?;
                            // the definition: everything is what was committed
                            let want = *r == root && j < n && v[j] == x && p == &paths[j][..];
                            ctx.outcome(if want { "accepted" } else { "rejected" });
                            if got != want { return Err(format!("length {}, opening of {}, {}: verdict {}, should be {}", n, i, what(), got, want).into()) }
                            Ok(())
                        };
                        let p = &paths[i];
                        see(&root, v[i], p, i, &|| "as committed".into())?;
                        // positions
                        for j in (0..4 * n).chain((0..64).flat_map(|s| { let b = 1usize << s; [b, b.wrapping_add(i), b.wrapping_sub(1), i.wrapping_add(n.wrapping_mul(b)), !i & (b - 1)] })).chain([usize::MAX, usize::MAX - n + 1 + i, !i]) {
                            see(&root, v[i], p, j, &|| format!("claimed position {}", j))?;
                        }
                        // values
                        let mut vals: Vec<F> = v.clone();
                        vals.extend([F::zero(), F::one(), neg(v[i]), add(v[i], F::one()), sub(v[i], F::one()), add(v[i], v[i])]);
                        let mut x = F::one();
                        for _ in 0..F::NUM_BITS { vals.push(add(v[i], x)); vals.push(sub(v[i], x)); x = add(x, x); }
                        for x in vals { see(&root, x, p, i, &|| format!("value {}", x))?; }
                        // openings of other positions
                        for j in 0..n {
                            for a in 0..3 {
                                let (x, q, t) = match a { 0 => (v[i], &paths[j], i), 1 => (v[j], p, j), _ => (v[j], &paths[j], i) };
                                see(&root, x, q, t, &|| format!("mixed with opening of {}", j))?;
                            }
                        }
                        // paths
                        let step = if thorough || n <= 8 { 1 } else { 7 };
                        for d in 0..p.len() {
                            for bit in (0..256).step_by(step) { let mut q = p.clone(); q[d][bit / 8] ^= 1 << (bit % 8); see(&root, v[i], &q, i, &|| format!("bit {} of sibling {}", bit, d))?; }
                            for h in [[0u8; 32], [255u8; 32], root, l[0][i], l[d][(i >> d)]] { let mut q = p.clone(); q[d] = h; see(&root, v[i], &q, i, &|| format!("sibling {} replaced", d))?; }
                            let mut q = p.clone(); q.remove(d); for j in [i, i >> 1, i & (n / 2).wrapping_sub(1)] { see(&root, v[i], &q, j, &|| format!("sibling {} removed, position {}", d, j))?; }
                            let mut q = p.clone(); q.insert(d, p[d]); for j in [i, i * 2, i * 2 + 1, i + n] { see(&root, v[i], &q, j, &|| format!("sibling {} doubled, position {}", d, j))?; }
                            for e in 0..d { let mut q = p.clone(); q.swap(d, e); see(&root, v[i], &q, i, &|| format!("siblings {} and {} swapped", d, e))?; }
                            see(&root, v[i], &p[..d], i, &|| format!("first {} siblings", d))?;
                            see(&root, v[i], &p[d + 1..], i >> (d + 1), &|| format!("last siblings from {}", d + 1))?;
                        }
                        for h in [[0u8; 32], root, l[0][i], p[0]] { let mut q = p.clone(); q.push(h); for j in [i, i + n] { see(&root, v[i], &q, j, &|| "one sibling more".into())?; } let mut q = p.clone(); q.insert(0, h); for j in [i, 2 * i, 2 * i + 1] { see(&root, v[i], &q, j, &|| "one sibling more in front".into())?; } }
                        let mut q = p.clone(); q.reverse(); see(&root, v[i], &q, i, &|| "reversed siblings".into())?;
                        see(&root, v[i], &vec![[7u8; 32]; 70], i, &|| "70 siblings".into())?;
                        see(&root, v[i], &vec![[7u8; 32]; 200], usize::MAX, &|| "200 siblings".into())?;
                        see(&l[0][i], v[i], &[], 0, &|| "own leaf as root".into()).or_else(|e| if n == 1 { Ok(()) } else if e.msg.contains("verdict true") { Ok(()) } else { Err(e) })?;
                        // roots
                        for bit in 0..256 { let mut r = root; r[bit / 8] ^= 1 << (bit % 8); see(&r, v[i], p, i, &|| format!("bit {} of the root", bit))?; }
                        for r in [[0u8; 32], longer, l[0][i], p[p.len() - 1]] { see(&r, v[i], p, i, &|| "another root".into())?; }
                        if other != root { see(&other, v[i], p, i, &|| "root of the reversed vector".into())?; }
                        // a proof that starts at an inner node
                        if n > 2 { let inner = &l[1][i >> 1]; let mut raw = [0u8; 32]; raw.copy_from_slice(inner); let x = Iop::<F>::encode_root_into_challenge(&raw); see(&root, x, &p[1..], i >> 1, &|| "inner node as value".into())?; }
                        ctx.state(&(kind, n, i));
                        ctx.trace();
                    }
                    Ok(())
                });
            }
        }
    }
}

fn c10(c: &mut Cases) {
    let t = c.thorough;
    c10_field::<Sk>(c, "stark", if t { 8 } else { 6 });
    c10_field::<F257>(c, "F257", if t { 8 } else { 6 });
    c10_field::<bigf::w65::Fr>(c, "65bit", if t { 6 } else { 5 });
}

// ------------------------------------------------------------------------------------------ C11

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum T { Bytes(u8), El(u8), DrawBytes, DrawScalar }
const BYTES: [&[u8]; 4] = [&[0x11], &[0x12, 0x23, 0x55], &[0x77; 40], &[]];
fn elements<F: PrimeField>() -> [F; 4] { [F::zero(), F::one(), neg(F::one()), fe(200)] }
fn t_ops() -> Vec<T> { vec![T::Bytes(0), T::Bytes(1), T::Bytes(2), T::Bytes(3), T::El(0), T::El(1), T::El(2), T::El(3), T::DrawBytes, T::DrawScalar] }

/// what the next challenge may depend on: bytes in a row are one string, kinds of draws are not told apart
fn normal(h: &[T]) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    let mut glue = false;
    for t in h {
        match t {
            // an empty string carries no information
            T::Bytes(3) => {}
            T::Bytes(i) => { let s: String = BYTES[*i as usize].iter().map(|b| format!("{:02x}", b)).collect(); if glue { r.last_mut().unwrap().push_str(&s) } else { r.push(s) } glue = true }
            T::El(i) => { r.push(format!("e{}", i)); glue = false }
            _ => { r.push("draw".into()); glue = false }
        }
    }
    r
}

fn t_apply<F: PrimeField>(t: &mut Blake2sTranscript<F>, op: T) -> Result<String, Fail> {
    let e = elements::<F>();
    quiet(|| match op {
        T::Bytes(i) => { t.commit_bytes(BYTES[i as usize]); String::new() }
        T::El(i) => { t.commit_field_element(&e[i as usize]); String::new() }
        T::DrawBytes => format!("{:?}", t.get_challenge_bytes()),
        T::DrawScalar => { let c = t.get_challenge(); assert!(F::from_repr(c.into_repr()).ok() == Some(c), "challenge is not canonical"); format!("{}", c) }
    }).map_err(|m| Fail::from(format!("{:?}: {}", op, m)))
}

fn c11_field<F: PrimeField>(c: &mut Cases, name: &'static str, depth: usize) {
    c.add(format!("histories/{}", name), move |ctx| {
        let big = F::NUM_BITS > 60;
        // normal form -> challenge bytes and scalar that come next
        let mut seen: HashMap<Vec<String>, (Vec<u8>, String)> = HashMap::new();
        let mut by_bytes: HashMap<Vec<u8>, Vec<String>> = HashMap::new();
        let mut by_scalar: HashMap<String, Vec<String>> = HashMap::new();
        let mut q: VecDeque<(Blake2sTranscript<F>, Vec<T>)> = VecDeque::new();
        q.push_back((Blake2sTranscript::<F>::new(), vec![]));
        while let Some((t, h)) = q.pop_front() {
            ctx.step(1);
            let n = normal(&h);
            let bytes = quiet(|| t.clone().get_challenge_bytes()).map_err(|m| format!("{:?}: {}", h, m))?;
            let scalar = t_apply(&mut t.clone(), T::DrawScalar)?;
            // a second machine with the same history, and the fork is not touched by draws of its clones
            let mut t2 = Blake2sTranscript::<F>::new();
            for op in h.iter() { t_apply(&mut t2, *op)?; }
            ensure!(t2.clone().get_challenge_bytes() == bytes && t_apply(&mut t2.clone(), T::DrawScalar)? == scalar, "the history {:?} gives two challenges", h);
            ensure!(t.clone().get_challenge_bytes() == bytes, "drawing from a clone changes the original after {:?}", h);
            ensure!(bytes.len() >= 16, "a challenge of {} bytes", bytes.len());
            ctx.trace();
            let kinds: Vec<T> = h.clone();
            if !seen.contains_key(&n) {
                if let Some(o) = by_bytes.insert(bytes.clone(), n.clone()) { return Err(format!("histories {:?} and {:?} give the same challenge bytes", n, o).into()) }
                if big { if let Some(o) = by_scalar.insert(scalar.clone(), n.clone()) { return Err(format!("histories {:?} and {:?} give the same challenge {}", n, o, scalar).into()) } }
                seen.insert(n.clone(), (bytes.clone(), scalar.clone()));
                ctx.state(&n);
            }
            let _ = kinds;
            if h.len() < depth {
                for op in t_ops() {
                    let mut u = t.clone();
                    t_apply(&mut u, op)?;
                    ensure!(t.clone().get_challenge_bytes() == bytes, "{:?} on a clone changes the original after {:?}", op, h);
                    let mut g = h.clone();
                    g.push(op);
                    q.push_back((u, g));
                }
            }
        }
        ctx.sample(|| format!("{} normal forms", seen.len()));
        Ok(())
    });
    c.add(format!("roots/{}", name), |ctx| {
        let mut roots: Vec<H> = vec![[0; 32], [255; 32], [0x80; 32], [0x7f; 32]];
        for bit in 0..256usize { let mut r = [0u8; 32]; r[bit / 8] |= 1 << (bit % 8); roots.push(r); for b in r.iter_mut() { *b ^= 255 } roots.push(r); }
        for i in 0..=32usize { let mut r = [0u8; 32]; for b in r[..i].iter_mut() { *b = 255 } roots.push(r); for b in r.iter_mut() { *b ^= 255 } roots.push(r); }
        // the modulus itself, and its neighbours, at either end and in either byte order
        let mut m = vec![0u8; F::char().as_ref().len() * 8];
        F::char().write_be(&mut m[..]).unwrap();
        for d in [0i32, -1, 1] { for rev in [false, true] { for end in [false, true] {
            let mut x = m.clone();
            let k = x.len() - 1;
            x[k] = (x[k] as i32 + d) as u8;
            if rev { x.reverse() }
            let mut r = [0u8; 32];
            let n = x.len().min(32);
            if end { r[32 - n..].copy_from_slice(&x[x.len() - n..]) } else { r[..n].copy_from_slice(&x[x.len() - n..]) }
            roots.push(r);
        } } }
        for r in roots {
            ctx.step(1);
            let s = quiet(|| Iop::<F>::encode_root_into_challenge(&r)).map_err(|m| format!("root {:?}: {}", r, m))?;
            ensure!(F::from_repr(s.into_repr()).ok() == Some(s), "challenge of root {:?} is not canonical", r);
            ensure!(s == Iop::<F>::encode_root_into_challenge(&r), "two challenges for one root");
            ensure!(s == <Tree<F> as IopTree<F>>::encode_root_into_challenge(&r), "two challenges for one root");
            ctx.state(&r);
            ctx.trace();
        }
        // different commitments give different challenges
        if F::NUM_BITS > 60 {
            let mut seen = HashMap::new();
            for i in 0..2000u64 {
                let v: Vec<F> = vec![fe(i), fe(i / 2)];
                let s = on(2, Order::Lifo, |_| Iop::<F>::create(&v).get_challenge_scalar_from_root());
                ctx.step(1);
                if let Some(o) = seen.insert(format!("{}", s), i) { return Err(format!("commitments {} and {} give the same challenge", o, i).into()) }
            }
        }
        Ok(())
    });
    c.add(format!("long/{}", name), |ctx| {
        // many draws in a row, scalars and bytes: never fails, never repeats
        let mut seen = HashSet::new();
        let mut t = Blake2sTranscript::<F>::new();
        for i in 0..3000 {
            ctx.step(1);
            let b = quiet(|| t.clone().get_challenge_bytes()).map_err(|m| format!("draw {}: {}", i, m))?;
            ensure!(seen.insert(b), "draw {} repeats an earlier one", i);
            t_apply(&mut t, T::DrawScalar)?;
            ctx.state(&i);
        }
        ctx.trace();
        // long histories that repeat up to three operations: no challenge comes twice unless nothing happened
        let ops = t_ops();
        for a in 0..ops.len() { for b in 0..ops.len() { for p in 0..2 {
            let word = if p == 0 { vec![ops[a], ops[b]] } else { vec![ops[a], ops[b], T::DrawScalar] };
            if word.iter().all(|x| *x == T::Bytes(3)) { continue }
            let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
            let mut t = Blake2sTranscript::<F>::new();
            for i in 0..if a == b || p == 1 { 300 } else { 40 } {
                let op = word[i % word.len()];
                if op == T::Bytes(3) { continue }
                t_apply(&mut t, op)?;
                ctx.step(1);
                if let Some(o) = seen.insert(t.clone().get_challenge_bytes(), i) { return Err(format!("repeating {:?}: the challenges after {} and {} operations are equal", word, o + 1, i + 1).into()) }
            }
            ctx.state(&format!("{:?}", word));
        } } }
        // each of many operations counts
        let run = |h: &[T]| -> Result<Vec<u8>, Fail> { let mut t = Blake2sTranscript::<F>::new(); for op in h { t_apply(&mut t, *op)?; } Ok(t.get_challenge_bytes()) };
        for n in [33usize, 150] {
            let h: Vec<T> = (0..n).map(|i| ops[[0, 4, 8, 5, 1, 9, 6, 2][i % 8]]).collect();
            let base = run(&h)?;
            let mut all = HashSet::new();
            for i in 0..n { for to in [T::Bytes(0), T::El(3), T::DrawBytes] {
                let mut g = h.clone();
                g[i] = to;
                if normal(&g) == normal(&h) { continue }
                ctx.step(1);
                let d = run(&g)?;
                ensure!(d != base, "operation {} of {} does not count", i, n);
                let _ = all.insert(d);
            } }
        }
        // lengths of commits, and every byte of longer ones
        {
            let draw = |b: &[u8]| { let mut t = Blake2sTranscript::<F>::new(); t.commit_bytes(b); t.get_challenge_bytes() };
            let mut all = HashSet::new();
            for l in 0..600usize { for v in [0u8, 0xff] { if l == 0 && v > 0 { continue } ctx.step(1); ensure!(all.insert(draw(&vec![v; l])), "a commit of {} bytes {} gives the challenge of another one", l, v) } }
            let base = vec![0x41u8; 5000];
            let d = draw(&base);
            for i in (0..5000).step_by(if F::NUM_BITS > 200 { 1 } else { 61 }) { let mut b = base.clone(); b[i] ^= 0x80; ctx.step(1); ensure!(draw(&b) != d, "byte {} of a long commit does not count", i) }
        }
        // each byte position of a long commit counts
        let base = vec![0x41u8; 200];
        let draw = |b: &[u8]| { let mut t = Blake2sTranscript::<F>::new(); t.commit_bytes(b); t.get_challenge_bytes() };
        let d0 = draw(&base);
        let mut all = HashSet::new();
        for i in 0..200 { let mut b = base.clone(); b[i] ^= 1; ctx.step(1); ensure!(all.insert(draw(&b)), "byte {} of a commit does not count", i); ensure!(draw(&base[..i]) != d0, "the length of a commit does not count"); }
        ensure!(!all.contains(&d0), "a changed commit gives the same challenge");
        // and each bit of an element
        let elem = |e: F| { let mut t = Blake2sTranscript::<F>::new(); t.commit_field_element(&e); t.get_challenge_bytes() };
        let mut all: HashMap<Vec<u8>, F> = HashMap::new();
        let mut x = F::one();
        for _ in 0..F::NUM_BITS { for y in [x, neg(x), add(x, F::one())] { ctx.step(1); if let Some(o) = all.insert(elem(y), y) { ensure!(o == y, "elements {} and {} give the same challenge", o, y); } } x = add(x, x); }
        Ok(())
    });
}

fn c11(c: &mut Cases) {
    let d = if c.thorough { 6 } else { 5 };
    c11_field::<Sk>(c, "stark", d);
    c11_field::<bigf::w9::Fr>(c, "9bit", 4);
    c11_field::<bigf::w31::Fr>(c, "31bit", 4);
    c11_field::<bigf::w63::Fr>(c, "63bit", 4);
    c11_field::<bigf::w64::Fr>(c, "64bit", 4);
    c11_field::<bigf::w65::Fr>(c, "65bit", d - 1);
    c11_field::<bigf::w100::Fr>(c, "100bit", 4);
    c11_field::<bigf::w127::Fr>(c, "127bit", 4);
    c11_field::<bigf::w128::Fr>(c, "128bit", 4);
    c11_field::<bigf::w129::Fr>(c, "129bit", 4);
    c11_field::<bigf::w160::Fr>(c, "160bit", 4);
    c11_field::<bigf::w191::Fr>(c, "191bit", 4);
    c11_field::<bigf::w192::Fr>(c, "192bit", 4);
    c11_field::<bigf::w193::Fr>(c, "193bit", 4);
    c11_field::<bigf::w224::Fr>(c, "224bit", 4);
    c11_field::<bigf::w250::Fr>(c, "250bit", 4);
    c11_field::<bigf::w255::Fr>(c, "255bit", 4);
    c11_field::<hodor::Fr>(c, "hodor::Fr", 4);
}

// ------------------------------------------------------------------------------------------ C24

type Ver<F> = Verifier<F, Blake2sTranscript<F>, Iop<F>, FRIProofPrototype<F, Iop<F>>, FRIProof<F, Iop<F>>, NaiveFriIop<F, Iop<F>>, PerRegisterARP>;

/// boundary challenges for domains too large to enumerate
fn c24_large(c: &mut Cases) {
    for k in 14..=62u32 {
        c.add(format!("large/size=2^{}", k), move |ctx| {
            let n = 1u64 << k;
            for f in 1..k {
                let f = 1u64 << f;
                let mut rs: Vec<u64> = vec![];
                for j in 0..k { let b = 1u64 << j; for x in [b - 1, b, b + 1, b + f, b + f - 1, n - b, (n - b).wrapping_sub(1), n - b + 1] { if x < n { rs.push(x) } } }
                rs.sort(); rs.dedup();
                for r in rs {
                    for high in [0u64, 1, u64::MAX >> k] {
                        let x = (high << k) | r;
                        let mut b = vec![0xa5u8; 32];
                        b[..8].copy_from_slice(&x.to_le_bytes());
                        b[24..].copy_from_slice(&x.to_be_bytes());
                        ctx.step(1);
                        let i = quiet(|| Ver::<F257>::bytes_to_challenge_index(&b, n as usize, f as usize)).map_err(|m| format!("challenge {:?}, size {}, factor {}: {}", b, n, f, m))? as u64;
                        ensure!(i < n && i % 2 == 1 && i % f != 0, "size {}, factor {}, challenge {}: position {}", n, f, x, i);
                        if r % 2 == 1 { ensure!(i == r, "size {}, factor {}: the qualifying position {} becomes {}", n, f, r, i); }
                    }
                    ctx.state(&(f, r));
                }
            }
            ctx.trace();
            Ok(())
        });
    }
}

fn c24(c: &mut Cases) {
    c24_large(c);
    let max = if c.thorough { 16 } else { 13 };
    for k in 2..=max as u32 {
        for f in 1..k {
            c.add(format!("size=2^{}/factor=2^{}", k, f), move |ctx| {
                let (n, f) = (1usize << k, 1usize << f);
                let good = |i: usize| i % 2 == 1 && i % f != 0;
                let mut hit: BTreeMap<usize, u64> = BTreeMap::new();
                let highs: [u64; 6] = [0, 1, 1 << 16, 1 << 40, (1 << 48) - 1, u64::MAX >> k];
                for (hi, high) in highs.into_iter().enumerate() {
                    for r in 0..n as u64 {
                        // the same number wherever an implementation takes it from
                        let x = (high << k) | r;
                        let mut b = vec![0xa5u8; 32];
                        b[..8].copy_from_slice(&x.to_le_bytes());
                        b[24..].copy_from_slice(&x.to_be_bytes());
                        ctx.step(1);
                        let i = quiet(|| Ver::<F257>::bytes_to_challenge_index(&b, n, f)).map_err(|m| format!("challenge {:?}, size {}, factor {}: {}", b, n, f, m))?;
                        ensure!(i < n, "size {}, factor {}: position {} is outside", n, f, i);
                        ensure!(i % 2 == 1, "size {}, factor {}: position {} is even", n, f, i);
                        ensure!(i % f != 0, "size {}, factor {}: position {} belongs to the original domain", n, f, i);
                        ensure!(i == Ver::<F257>::bytes_to_challenge_index(&b, n, f), "two positions for one challenge");
                        if good(r as usize) && hi <= 1 { ctx.outcome(if i == r as usize { "qualifying residue unchanged" } else { "qualifying residue moved" }); }
                        if good(r as usize) { ensure!(i == r as usize, "size {}, factor {}: the qualifying position {} becomes {}", n, f, r, i); }
                        *hit.entry(i).or_insert(0) += 1;
                        ctx.state(&(hi, r));
                    }
                }
                for i in 0..n { ensure!(hit.contains_key(&i) == good(i), "size {}, factor {}: position {} is reached: {}", n, f, i, hit.contains_key(&i)); }
                ctx.trace();
                for b in [vec![0u8; 32], vec![255u8; 32], vec![0x7f; 32], vec![0x80; 32]] {
                    let i = quiet(|| Ver::<F257>::bytes_to_challenge_index(&b, n, f)).map_err(|m| format!("challenge {:?}: {}", b, m))?;
                    ensure!(i < n && good(i), "challenge {:?}: position {}", b, i);
                }
                Ok(())
            });
        }
    }
}
