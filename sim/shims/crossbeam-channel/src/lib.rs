//! The real crossbeam-channel with a preemption point before and after every operation.
use std::ops::Deref;
use std::time::{Duration, Instant};
pub use real::*;

pub struct Sender<T>(real::Sender<T>);
pub struct Receiver<T>(real::Receiver<T>);
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { let (a, b) = real::unbounded(); (Sender(a), Receiver(b)) }
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) { let (a, b) = real::bounded(n); (Sender(a), Receiver(b)) }
pub fn never<T>() -> Receiver<T> { Receiver(real::never()) }
pub fn after(d: Duration) -> Receiver<Instant> { Receiver(real::after(d)) }
pub fn tick(d: Duration) -> Receiver<Instant> { Receiver(real::tick(d)) }
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender(self.0.clone()) } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { Receiver(self.0.clone()) } }
impl<T> Deref for Sender<T> { type Target = real::Sender<T>; fn deref(&self) -> &real::Sender<T> { &self.0 } }
impl<T> Deref for Receiver<T> { type Target = real::Receiver<T>; fn deref(&self) -> &real::Receiver<T> { &self.0 } }
impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad("Sender { .. }") } }
impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad("Receiver { .. }") } }
fn around<R>(op: &'static str, f: impl FnOnce() -> R) -> R { simos::point(op, 0); let r = f(); simos::point(op, 1); r }
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> { around("send", || self.0.send(t)) }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> { around("try_send", || self.0.try_send(t)) }
    pub fn send_timeout(&self, t: T, d: Duration) -> Result<(), SendTimeoutError<T>> { around("send_timeout", || self.0.send_timeout(t, d)) }
    pub fn send_deadline(&self, t: T, d: Instant) -> Result<(), SendTimeoutError<T>> { around("send_deadline", || self.0.send_deadline(t, d)) }
    pub fn same_channel(&self, o: &Sender<T>) -> bool { self.0.same_channel(&o.0) }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> { around("recv", || self.0.recv()) }
    pub fn try_recv(&self) -> Result<T, TryRecvError> { around("try_recv", || self.0.try_recv()) }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> { around("recv_timeout", || self.0.recv_timeout(d)) }
    pub fn recv_deadline(&self, d: Instant) -> Result<T, RecvTimeoutError> { around("recv_deadline", || self.0.recv_deadline(d)) }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool { self.0.same_channel(&o.0) }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
