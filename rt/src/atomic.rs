//! Atomics whose operations are scheduling points.
use crate::sched::soft_point;
use std::sync::atomic::Ordering;

macro_rules! wrap_atomic {
    ($name:ident, $t:ty, [$($rmw:ident),*]) => {
        #[derive(Default, Debug)]
        pub struct $name(std::sync::atomic::$name);
        #[allow(deprecated)]
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self(std::sync::atomic::$name::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                soft_point();
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                soft_point();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                soft_point();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                soft_point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                soft_point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, func: F) -> Result<$t, $t> {
                soft_point();
                self.0.fetch_update(s, f, func)
            }
            $(pub fn $rmw(&self, v: $t, o: Ordering) -> $t {
                soft_point();
                self.0.$rmw(v, o)
            })*
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
    };
}

wrap_atomic!(AtomicBool, bool, [fetch_or, fetch_and, fetch_xor, fetch_nand]);
wrap_atomic!(AtomicU64, u64, [fetch_add, fetch_sub, fetch_or, fetch_and, fetch_xor, fetch_max, fetch_min]);
wrap_atomic!(AtomicUsize, usize, [fetch_add, fetch_sub, fetch_or, fetch_and, fetch_xor, fetch_max, fetch_min]);
wrap_atomic!(AtomicI64, i64, [fetch_add, fetch_sub, fetch_or, fetch_and, fetch_xor, fetch_max, fetch_min]);
wrap_atomic!(AtomicU32, u32, [fetch_add, fetch_sub, fetch_or, fetch_and, fetch_xor, fetch_max, fetch_min]);
