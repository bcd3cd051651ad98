//! Channels under the explorer's control.
use crate::sched::{self, Wait};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Inner<T> { queue: Mutex<Queue<T>>, id: usize, cap: usize }
struct Queue<T> { items: VecDeque<T>, senders: usize, receivers: usize }

pub struct Sender<T>(Arc<Inner<T>>);
pub struct Receiver<T>(Arc<Inner<T>>);

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
impl<T> std::fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("SendError(..)") }
}
impl<T> std::fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("sending on a disconnected channel") }
}
impl std::fmt::Display for RecvError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("receiving on an empty and disconnected channel") }
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecvError { Empty, Disconnected }
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RecvTimeoutError { Timeout, Disconnected }
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> { Full(T), Disconnected(T) }
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> { Timeout(T), Disconnected(T) }
impl<T> SendError<T> { pub fn into_inner(self) -> T { self.0 } }
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T { match self { TrySendError::Full(v) | TrySendError::Disconnected(v) => v } }
    pub fn is_full(&self) -> bool { matches!(self, TrySendError::Full(_)) }
    pub fn is_disconnected(&self) -> bool { !self.is_full() }
}
impl<T> SendTimeoutError<T> {
    pub fn into_inner(self) -> T { match self { SendTimeoutError::Timeout(v) | SendTimeoutError::Disconnected(v) => v } }
    pub fn is_timeout(&self) -> bool { matches!(self, SendTimeoutError::Timeout(_)) }
    pub fn is_disconnected(&self) -> bool { !self.is_timeout() }
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool { *self == TryRecvError::Empty }
    pub fn is_disconnected(&self) -> bool { *self == TryRecvError::Disconnected }
}
impl RecvTimeoutError {
    pub fn is_timeout(&self) -> bool { *self == RecvTimeoutError::Timeout }
    pub fn is_disconnected(&self) -> bool { *self == RecvTimeoutError::Disconnected }
}
macro_rules! shown {
    ($($t:ident $(<$p:ident>)?),*) => {$(
        impl$(<$p>)? std::fmt::Display for $t$(<$p>)? { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(stringify!($t)) } }
    )*}
}
shown!(TryRecvError, RecvTimeoutError, TrySendError<T>, SendTimeoutError<T>);
impl<T> std::fmt::Debug for TrySendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("TrySendError(..)") } }
impl<T> std::fmt::Debug for SendTimeoutError<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("SendTimeoutError(..)") } }
impl std::error::Error for RecvError {}
impl std::error::Error for TryRecvError {}
impl std::error::Error for RecvTimeoutError {}
impl<T: Send> std::error::Error for SendError<T> {}
impl<T: Send> std::error::Error for TrySendError<T> {}
impl<T: Send> std::error::Error for SendTimeoutError<T> {}

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { bounded(usize::MAX) }

pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let inner = Arc::new(Inner {
        queue: Mutex::new(Queue { items: VecDeque::new(), senders: 1, receivers: 1 }),
        id: sched::new_id(), cap: cap.max(1),
    });
    (Sender(inner.clone()), Receiver(inner))
}

impl<T> Sender<T> {
    pub fn send(&self, value: T) -> Result<(), SendError<T>> {
        sched::yield_point();
        let mut value = Some(value);
        loop {
            {
                let mut q = self.0.queue.lock().unwrap();
                if q.receivers == 0 { return Err(SendError(value.take().unwrap())); }
                if q.items.len() < self.0.cap {
                    q.items.push_back(value.take().unwrap());
                    break;
                }
            }
            sched::block(Wait::Channel(self.0.id), "send on a full channel that nobody reads");
        }
        sched::wake(Wait::Channel(self.0.id));
        Ok(())
    }
    pub fn try_send(&self, value: T) -> Result<(), TrySendError<T>> {
        sched::yield_point();
        {
            let mut q = self.0.queue.lock().unwrap();
            if q.receivers == 0 { return Err(TrySendError::Disconnected(value)); }
            if q.items.len() >= self.0.cap { return Err(TrySendError::Full(value)); }
            q.items.push_back(value);
        }
        sched::wake(Wait::Channel(self.0.id));
        Ok(())
    }
    pub fn send_timeout(&self, value: T, _: Duration) -> Result<(), SendTimeoutError<T>> {
        let mut value = value;
        loop {
            match self.try_send(value) {
                Ok(()) => return Ok(()),
                Err(TrySendError::Disconnected(v)) => return Err(SendTimeoutError::Disconnected(v)),
                Err(TrySendError::Full(v)) => value = v,
            }
            if sched::block_timeout(Wait::Channel(self.0.id)) { return Err(SendTimeoutError::Timeout(value)); }
        }
    }
    pub fn is_full(&self) -> bool { self.len() >= self.0.cap }
    pub fn capacity(&self) -> Option<usize> { if self.0.cap == usize::MAX { None } else { Some(self.0.cap) } }
    pub fn same_channel(&self, other: &Sender<T>) -> bool { self.0.id == other.0.id }
    pub fn len(&self) -> usize { sched::yield_point(); self.0.queue.lock().unwrap().items.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
}

impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        sched::yield_point();
        let r = {
            let mut q = self.0.queue.lock().unwrap();
            match q.items.pop_front() {
                Some(v) => Ok(v),
                None if q.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        };
        if r.is_ok() { sched::wake(Wait::Channel(self.0.id)); }
        r
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        loop {
            match self.try_recv() {
                Ok(v) => return Ok(v),
                Err(TryRecvError::Disconnected) => return Err(RecvError),
                Err(TryRecvError::Empty) => sched::block(Wait::Channel(self.0.id), "receive from a channel that nobody writes"),
            }
        }
    }
    pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
        loop {
            match self.try_recv() {
                Ok(v) => return Ok(v),
                Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => if sched::block_timeout(Wait::Channel(self.0.id)) { return Err(RecvTimeoutError::Timeout); },
            }
        }
    }
    pub fn recv_deadline(&self, _: Instant) -> Result<T, RecvTimeoutError> { self.recv_timeout(Duration::from_secs(0)) }
    pub fn is_full(&self) -> bool { self.len() >= self.0.cap }
    pub fn capacity(&self) -> Option<usize> { if self.0.cap == usize::MAX { None } else { Some(self.0.cap) } }
    pub fn same_channel(&self, other: &Receiver<T>) -> bool { self.0.id == other.0.id }
    pub fn len(&self) -> usize { sched::yield_point(); self.0.queue.lock().unwrap().items.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}

pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }

impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Sender { .. }") } }
impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Receiver { .. }") } }
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.queue.lock().unwrap().senders += 1; Sender(self.0.clone()) } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.queue.lock().unwrap().receivers += 1; Receiver(self.0.clone()) } }
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let last = { let mut q = self.0.queue.lock().unwrap(); q.senders -= 1; q.senders == 0 };
        if last { sched::wake(Wait::Channel(self.0.id)); }
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let last = { let mut q = self.0.queue.lock().unwrap(); q.receivers -= 1; q.receivers == 0 };
        if last { sched::wake(Wait::Channel(self.0.id)); }
    }
}

/// every clone is dropped or waits before a wait ends
pub struct WaitGroup(Arc<Group>);
struct Group { count: Mutex<usize>, id: usize }
impl Default for WaitGroup { fn default() -> Self { WaitGroup(Arc::new(Group { count: Mutex::new(1), id: sched::new_id() })) } }
impl WaitGroup {
    pub fn new() -> Self { Self::default() }
    pub fn wait(self) {
        let g = self.0.clone();
        drop(self);
        sched::yield_point();
        while *g.count.lock().unwrap() > 0 { sched::block(Wait::Channel(g.id), "wait group"); }
    }
}
impl Clone for WaitGroup { fn clone(&self) -> Self { *self.0.count.lock().unwrap() += 1; WaitGroup(self.0.clone()) } }
impl Drop for WaitGroup {
    fn drop(&mut self) {
        let last = { let mut c = self.0.count.lock().unwrap(); *c -= 1; *c == 0 };
        if last { sched::wake(Wait::Channel(self.0.id)); }
    }
}
