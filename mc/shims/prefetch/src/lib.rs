//! Stand-in for `prefetch` (which needs a nightly compiler): the hint to the processor has no effect on results.
pub mod prefetch {
    pub trait Kind {}
    pub struct Read;
    pub struct Write;
    pub struct Low;
    pub struct Medium;
    pub struct High;
    pub struct Instruction;
    pub struct Data;
    #[inline(always)]
    pub fn prefetch<R, L, C, T>(p: *const T) { std::hint::black_box(p); }
}
