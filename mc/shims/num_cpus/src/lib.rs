//! Stand-in for `num_cpus`: the explorer decides how many CPUs the code under test sees.
pub fn get() -> usize { mcrt::sched::cpus() }
pub fn get_physical() -> usize { mcrt::sched::cpus() }
