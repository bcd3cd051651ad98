//! Commitment schemes and transcripts of the harness, behind the traits of the code under test:
//! openings whose every part can be set, a commitment that is the vector itself, and a transcript
//! that records what it is told and asked (and can be told what to answer).
use crate::refs::*;
use ff::{Field, PrimeField, PrimeFieldRepr};
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::trivial_coset_combiner::*;
use hodor::iop::*;
use hodor::transcript::*;
use std::cell::RefCell;
use std::marker::PhantomData;

pub type H = [u8; 32];

pub fn leaf<F: PrimeField>(v: &F) -> H { <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_leaf(v) }
pub fn node<F: PrimeField>(a: &H, b: &H, level: usize) -> H { <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_node(&[*a, *b], level) }
/// all levels, leaves first
pub fn levels<F: PrimeField>(v: &[F]) -> Vec<Vec<H>> {
    let mut l = vec![v.iter().map(leaf::<F>).collect::<Vec<_>>()];
    let depth = log2(v.len()) as usize;
    for d in (0..depth).rev() {
        let p = l.last().unwrap();
        let n: Vec<H> = (0..p.len() / 2).map(|i| node::<F>(&p[2 * i], &p[2 * i + 1], d)).collect();
        l.push(n);
    }
    l
}
pub fn path_of(l: &[Vec<H>], i: usize) -> Vec<H> { (0..l.len() - 1).map(|d| l[d][(i >> d) ^ 1]).collect() }
pub fn root_of(l: &[Vec<H>]) -> H { l[l.len() - 1][0] }
/// hashes up to a root; the position must lie in a tree of `depth` levels
pub fn path_ok<F: PrimeField>(root: &H, v: &F, path: &[H], i: usize, depth: usize) -> bool {
    if path.len() != depth || i >> depth != 0 { return false }
    let mut h = leaf::<F>(v);
    for (d, p) in path.iter().enumerate() { h = if i >> d & 1 == 0 { node::<F>(&h, p, 0) } else { node::<F>(p, &h, 0) } }
    h == *root
}

/// a tree of another shape for the same vector, and how position `i` is opened in it: a level more (below the left or the right half of the root), or the leaf one level higher
pub fn shaped<F: PrimeField>(t: &[F], lv: &[Vec<H>], shape: usize, i: usize) -> Option<(H, usize, Vec<H>)> {
    let other = [7u8; 32];
    if shape < 2 {
        let root = if shape == 0 { node::<F>(&root_of(lv), &other, 0) } else { node::<F>(&other, &root_of(lv), 0) };
        let mut path = path_of(lv, i);
        path.push(other);
        return Some((root, if shape == 0 { i } else { i + t.len() }, path));
    }
    if t.len() < 4 { return None }
    let up = i % (t.len() / 2);
    let mut hs = lv[1].clone();
    hs[up] = leaf(&t[i]);
    let mut top = vec![hs];
    while top.last().unwrap().len() > 1 { let x = top.last().unwrap(); let y = (0..x.len() / 2).map(|i| node::<F>(&x[2 * i], &x[2 * i + 1], 0)).collect(); top.push(y) }
    Some((root_of(&top), up, path_of(&top, up)))
}

/// an opening whose parts are independent of each other
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Open<F: PrimeField> { pub natural: usize, pub tree: usize, pub value: F, pub path: Vec<H> }
impl<F: PrimeField> IopQuery<F> for Open<F> {
    type Hasher = Blake2sTreeHasher<F>;
    fn tree_index(&self) -> usize { self.tree }
    fn natural_index(&self) -> usize { self.natural }
    fn value(&self) -> F { self.value }
    fn path(&self) -> &[H] { &self.path }
}
/// the commitment of the code under test, with these openings
pub struct OpenIop<F: PrimeField> { pub tree: Blake2sIopTree<F> }
impl<F: PrimeField> IOP<F> for OpenIop<F> {
    type Combiner = TrivialCombiner<F>;
    type Tree = Blake2sIopTree<F>;
    type Query = Open<F>;
    fn create(leafs: &[F]) -> Self { OpenIop { tree: Blake2sIopTree::create(leafs) } }
    fn get_for_natural_index(leafs: &[F], i: usize) -> &F { &leafs[i] }
    fn get_for_tree_index(leafs: &[F], i: usize) -> &F { &leafs[i] }
    fn get_root(&self) -> H { self.tree.get_root() }
    fn encode_root_into_challenge(root: &H) -> F { Blake2sIopTree::<F>::encode_root_into_challenge(root) }
    fn get_challenge_scalar_from_root(&self) -> F { self.tree.get_challenge_scalar_from_root() }
    fn verify_query(q: &Open<F>, root: &H) -> bool { q.natural == q.tree && Blake2sIopTree::<F>::verify(root, &q.value, &q.path, q.tree) }
    fn query(&self, i: usize, leafs: &[F]) -> Open<F> { Open { natural: i, tree: i, value: leafs[i], path: self.tree.get_path(i, leafs) } }
}

// ------------------------------------------------------------- the vector as its own commitment

/// challenge (8 bytes), then the elements (8 bytes each)
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Plain(pub Vec<u8>);
impl AsRef<[u8]> for Plain { fn as_ref(&self) -> &[u8] { &self.0 } }
impl HashFunctionOutput for Plain {}
pub fn num<F: PrimeField>(v: &F) -> u64 { v.into_repr().as_ref()[0] }
impl Plain {
    pub fn new<F: PrimeField>(challenge: F, v: &[F]) -> Plain {
        let mut b = num(&challenge).to_be_bytes().to_vec();
        for x in v { b.extend_from_slice(&num(x).to_be_bytes()) }
        Plain(b)
    }
    pub fn get(&self, i: usize) -> Option<u64> { self.0.get(8 + 8 * i..16 + 8 * i).map(|b| u64::from_be_bytes(b.try_into().unwrap())) }
}
thread_local! { pub static CHALLENGE: RefCell<Box<dyn Fn(&[u64]) -> u64>> = RefCell::new(Box::new(|_| 1)); }
pub struct PlainHasher;
pub struct PlainEncoder;
impl<F: PrimeField> LeafEncoder<F> for PlainEncoder { type Output = u64; fn encode_leaf(v: &F) -> u64 { num(v) } }
impl<F: PrimeField> HashEncoder<F> for PlainEncoder { type Input = Plain; fn interpret_hash(v: &Plain) -> F { fe::<F>(u64::from_be_bytes(v.0[..8].try_into().unwrap())) } }
impl<F: PrimeField> IopTreeHasher<F> for PlainHasher {
    type HashOutput = Plain;
    type LeafEncoder = PlainEncoder;
    fn hash_leaf(v: &F) -> Plain { Plain::new::<F>(F::zero(), &[*v]) }
    fn hash_encoded_leaf(v: &u64) -> Plain { Plain::new::<F>(F::zero(), &[fe::<F>(*v)]) }
    fn hash_node(_: &[Plain], _: usize) -> Plain { Plain(vec![]) }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PlainQuery<F: PrimeField> { pub index: usize, pub value: F, pub path: Vec<Plain> }
impl<F: PrimeField> IopQuery<F> for PlainQuery<F> {
    type Hasher = PlainHasher;
    fn tree_index(&self) -> usize { self.index }
    fn natural_index(&self) -> usize { self.index }
    fn value(&self) -> F { self.value }
    fn path(&self) -> &[Plain] { &self.path }
}
#[derive(Clone, PartialEq, Eq)]
pub struct PlainIop<F: PrimeField> { pub root: Plain, _m: PhantomData<F> }
impl<F: PrimeField> IopTree<F> for PlainIop<F> {
    type Combiner = TrivialCombiner<F>;
    type Hasher = PlainHasher;
    fn create(l: &[F]) -> Self {
        let v: Vec<u64> = l.iter().map(num).collect();
        let c = CHALLENGE.with(|c| (c.borrow())(&v));
        PlainIop { root: Plain::new(fe::<F>(c), l), _m: PhantomData }
    }
    fn size(&self) -> u64 { (self.root.0.len() / 8 - 1) as u64 }
    fn get_root(&self) -> Plain { self.root.clone() }
    fn encode_root_into_challenge(root: &Plain) -> F { <PlainEncoder as HashEncoder<F>>::interpret_hash(root) }
    fn get_challenge_scalar_from_root(&self) -> F { <PlainEncoder as HashEncoder<F>>::interpret_hash(&self.root) }
    fn verify(root: &Plain, v: &F, _: &[Plain], i: usize) -> bool { root.get(i) == Some(num(v)) }
    fn get_path(&self, _: usize, l: &[F]) -> Vec<Plain> { vec![Plain(vec![]); log2(l.len()) as usize] }
}
impl<F: PrimeField> IOP<F> for PlainIop<F> {
    type Combiner = TrivialCombiner<F>;
    type Tree = Self;
    type Query = PlainQuery<F>;
    fn create(l: &[F]) -> Self { <Self as IopTree<F>>::create(l) }
    fn get_for_natural_index(l: &[F], i: usize) -> &F { &l[i] }
    fn get_for_tree_index(l: &[F], i: usize) -> &F { &l[i] }
    fn get_root(&self) -> Plain { self.root.clone() }
    fn encode_root_into_challenge(root: &Plain) -> F { <PlainEncoder as HashEncoder<F>>::interpret_hash(root) }
    fn get_challenge_scalar_from_root(&self) -> F { <PlainEncoder as HashEncoder<F>>::interpret_hash(&self.root) }
    fn verify_query(q: &PlainQuery<F>, root: &Plain) -> bool { root.get(q.index) == Some(num(&q.value)) }
    fn query(&self, i: usize, l: &[F]) -> PlainQuery<F> { PlainQuery { index: i, value: l[i], path: vec![Plain(vec![]); log2(l.len()) as usize] } }
}

// ------------------------------------------------------------------------------- the transcript

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Op { Bytes(Vec<u8>), Draw(Vec<u8>), DrawBytes(Vec<u8>) }
#[derive(Default)]
pub struct Script { pub log: Vec<Op>, pub scalars: Option<Vec<u64>>, pub bytes: Option<Vec<u64>>, pub at: usize, pub at_bytes: usize }
thread_local! { static SCRIPT: RefCell<Script> = RefCell::new(Script::default()); }

/// starts a new record; with a script, the scalars (taken round robin) and query numbers are given
pub fn record(scalars: Option<Vec<u64>>, bytes: Option<Vec<u64>>) { SCRIPT.with(|s| *s.borrow_mut() = Script { scalars, bytes, ..Default::default() }) }
pub fn recorded() -> Vec<Op> { SCRIPT.with(|s| std::mem::take(&mut s.borrow_mut().log)) }
pub fn be<F: PrimeField>(v: &F) -> Vec<u8> { let mut b = vec![]; v.into_repr().write_be(&mut b).unwrap(); b }
pub fn from_be<F: PrimeField>(b: &[u8]) -> F { let mut r = F::Repr::default(); r.read_be(b).unwrap(); F::from_repr(r).unwrap() }

#[derive(Clone)]
pub struct Rec<F: PrimeField> { inner: Blake2sTranscript<F> }
impl<F: PrimeField> Transcript<F> for Rec<F> {
    fn new() -> Self { Rec { inner: Blake2sTranscript::new() } }
    fn commit_bytes(&mut self, b: &[u8]) { self.inner.commit_bytes(b); SCRIPT.with(|s| s.borrow_mut().log.push(Op::Bytes(b.to_vec()))) }
    fn commit_field_element(&mut self, e: &F) { self.inner.commit_field_element(e); SCRIPT.with(|s| s.borrow_mut().log.push(Op::Bytes(be(e)))) }
    fn get_challenge_bytes(&mut self) -> Vec<u8> {
        let mut b = self.inner.get_challenge_bytes();
        SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            let given = s.bytes.as_ref().filter(|v| !v.is_empty()).map(|v| v[s.at_bytes % v.len()]);
            if let Some(g) = given { s.at_bytes += 1; let n = b.len(); b[n - 8..].copy_from_slice(&g.to_be_bytes()) }
            s.log.push(Op::DrawBytes(b.clone()));
        });
        b
    }
    fn get_challenge(&mut self) -> F {
        let mut c: F = self.inner.get_challenge();
        SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            let given = s.scalars.as_ref().filter(|v| !v.is_empty()).map(|v| v[s.at % v.len()]);
            if let Some(g) = given { s.at += 1; c = fe::<F>(g) }
            s.log.push(Op::Draw(be(&c)));
        });
        c
    }
}
