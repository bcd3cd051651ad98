//! Stand-in for `futures-cpupool`: no threads, work is done when it is submitted.
extern crate futures;
use futures::{Async, Future, IntoFuture, Poll};

#[derive(Clone)]
pub struct CpuPool { _size: usize }

pub struct CpuFuture<T, E> { result: Option<Result<T, E>> }

impl CpuPool {
    pub fn new(size: usize) -> CpuPool {
        assert!(size > 0);
        CpuPool { _size: size }
    }
    pub fn new_num_cpus() -> CpuPool { CpuPool { _size: 1 } }
    pub fn spawn<F>(&self, f: F) -> CpuFuture<F::Item, F::Error>
    where F: Future + Send + 'static, F::Item: Send + 'static, F::Error: Send + 'static {
        CpuFuture { result: Some(f.wait()) }
    }
    pub fn spawn_fn<F, R>(&self, f: F) -> CpuFuture<R::Item, R::Error>
    where F: FnOnce() -> R + Send + 'static, R: IntoFuture + 'static, R::Future: Send + 'static,
          R::Item: Send + 'static, R::Error: Send + 'static {
        CpuFuture { result: Some(f().into_future().wait()) }
    }
}

impl<T, E> CpuFuture<T, E> { pub fn forget(self) {} }

impl<T: Send + 'static, E: Send + 'static> Future for CpuFuture<T, E> {
    type Item = T;
    type Error = E;
    fn poll(&mut self) -> Poll<T, E> {
        match self.result.take().expect("polled twice") {
            Ok(t) => Ok(Async::Ready(t)),
            Err(e) => Err(e),
        }
    }
}
