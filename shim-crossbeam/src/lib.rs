//! Drop-in replacement for the `crossbeam` facade crate used when the harness builds
//! /repo.  It behaves exactly like the real crate, and lets the harness pause a thread
//! before every operation on a shared queue (and, through the cfg-guarded import in
//! src/pool/mod.rs, on the pool's atomic counters) so that interleavings of the pool can be
//! driven.
pub use crossbeam_channel as channel;
pub use crossbeam_deque as deque;
pub use crossbeam_epoch as epoch;
pub use crossbeam_utils as utils;
pub use crossbeam_utils::atomic;
pub use crossbeam_utils::sync;
pub use crossbeam_utils::thread::scope;
pub use crossbeam_utils::thread;
pub use crossbeam_channel::select;

use std::sync::OnceLock;
static HOOK: OnceLock<fn()> = OnceLock::new();
/// Installs the function called at every scheduling point.
pub fn verif_set_hook(f: fn()) { let _ = HOOK.set(f); }
#[inline]
fn point() { if let Some(f) = HOOK.get() { f() } }

pub mod queue {
    use super::point;
    pub struct ArrayQueue<T>(crossbeam_queue::ArrayQueue<T>);
    impl<T> ArrayQueue<T> {
        pub fn new(cap: usize) -> Self { Self(crossbeam_queue::ArrayQueue::new(cap)) }
        pub fn push(&self, v: T) -> Result<(), T> { point(); self.0.push(v) }
        pub fn force_push(&self, v: T) -> Option<T> { point(); self.0.force_push(v) }
        pub fn pop(&self) -> Option<T> { point(); self.0.pop() }
        pub fn capacity(&self) -> usize { self.0.capacity() }
        pub fn is_empty(&self) -> bool { point(); self.0.is_empty() }
        pub fn is_full(&self) -> bool { point(); self.0.is_full() }
        pub fn len(&self) -> usize { point(); self.0.len() }
    }
    impl<T> IntoIterator for ArrayQueue<T> {
        type Item = T;
        type IntoIter = <crossbeam_queue::ArrayQueue<T> as IntoIterator>::IntoIter;
        fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
    }
    impl<T> std::fmt::Debug for ArrayQueue<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad("ArrayQueue { .. }") }
    }
    pub struct SegQueue<T>(crossbeam_queue::SegQueue<T>);
    impl<T> SegQueue<T> {
        pub const fn new() -> Self { Self(crossbeam_queue::SegQueue::new()) }
        pub fn push(&self, v: T) { point(); self.0.push(v) }
        pub fn pop(&self) -> Option<T> { point(); self.0.pop() }
        pub fn is_empty(&self) -> bool { point(); self.0.is_empty() }
        pub fn len(&self) -> usize { point(); self.0.len() }
    }
    impl<T> Default for SegQueue<T> { fn default() -> Self { Self::new() } }
    impl<T> IntoIterator for SegQueue<T> {
        type Item = T;
        type IntoIter = <crossbeam_queue::SegQueue<T> as IntoIterator>::IntoIter;
        fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
    }
    impl<T> std::fmt::Debug for SegQueue<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad("SegQueue { .. }") }
    }
}

/// Atomics with a scheduling point before every operation.
pub mod verif_atomic {
    use super::point;
    pub use std::sync::atomic::{fence, Ordering};
    macro_rules! base {
        ($n:ident, $t:ty) => {
            #[derive(Debug, Default)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self { Self(std::sync::atomic::$n::new(v)) }
                pub fn load(&self, o: Ordering) -> $t { point(); self.0.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { point(); self.0.store(v, o) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { point(); self.0.swap(v, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, s, f) }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, s, f) }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> { point(); self.0.fetch_update(s, f, g) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_xor(v, o) }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
            }
        };
    }
    macro_rules! num {
        ($n:ident, $t:ty) => {
            base!($n, $t);
            impl $n {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_sub(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_min(v, o) }
            }
        };
    }
    base!(AtomicBool, bool);
    num!(AtomicUsize, usize);
    num!(AtomicIsize, isize);
    num!(AtomicU64, u64);
    num!(AtomicI64, i64);
    num!(AtomicU32, u32);
    num!(AtomicI32, i32);
}
