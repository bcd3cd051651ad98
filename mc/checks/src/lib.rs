#![allow(dead_code, unused_imports)]
pub mod bigf;
pub mod field;
pub mod refs;
pub mod open;
pub mod fri;
pub mod stark;

use hodor::verif_hooks::Worker;
use mcrt::sched::{self, Order};

pub const ORDERS: [Order; 3] = [Order::Fifo, Order::Lifo, Order::Eager];

/// runs `f` with a worker of the given number of CPUs, tasks run in the given order
pub fn on<R>(cpus: usize, order: Order, f: impl FnOnce(&Worker) -> R) -> R {
    sched::with(cpus, order, || { let w = Worker::new(); f(&w) })
}

/// the same for the crate built with its feature `nightly`
#[cfg(feature = "prefetched")]
pub fn on_prefetched<R>(cpus: usize, order: Order, f: impl FnOnce(&hodor_prefetched::verif_hooks::Worker) -> R) -> R {
    sched::with(cpus, order, || { let w = hodor_prefetched::verif_hooks::Worker::new(); f(&w) })
}

/// combinations of CPU count and order, thinned out: every count, and every order with several counts
pub fn machines(all: bool) -> Vec<(usize, Order)> {
    let mut v = vec![];
    for (i, c) in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 100].iter().enumerate() {
        if all { for o in ORDERS { v.push((*c, o)) } } else { v.push((*c, ORDERS[i % 3])) }
    }
    v
}
/// the configurations in which the multi-coset extensions are known to give wrong values (D1)
pub fn d1(cpus: usize, factor: usize) -> bool { cpus >= 2 && factor / cpus >= 2 }
/// what the recorded finding D1 gives instead of `right`
pub fn d1_values<F: ff::PrimeField>(right: &[F], cpus: usize, factor: usize) -> Vec<F> {
    let chunk = if factor < cpus { 1 } else { factor / cpus };
    (0..right.len()).map(|i| { let k = i % factor; right[k / chunk + k % chunk + (i / factor) * factor] }).collect()
}
