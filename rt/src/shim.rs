//! The interface of `dam::shim`.
use crate::sched;
use std::sync::Arc;

pub use crate::sync::{Mutex, RwLock};
pub use std::sync::Condvar;

/// Execution mode for each thread
#[derive(Debug, Default, Clone, Copy)]
pub enum RunMode {
    #[default]
    Simple,
    FIFO,
}

#[derive(Clone)]
pub enum Thread {
    Real(std::thread::Thread),
    Controlled(Arc<sched::Sched>, usize),
}
impl std::fmt::Debug for Thread {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Thread")
    }
}
impl Thread {
    pub fn unpark(&self) {
        match self {
            Thread::Real(t) => t.unpark(),
            Thread::Controlled(s, t) => sched::unpark(s, *t),
        }
    }
}
pub fn current() -> Thread {
    match sched::cur() {
        Some((s, me)) => Thread::Controlled(s, me),
        None => Thread::Real(std::thread::current()),
    }
}
pub fn park() {
    if sched::controlled() {
        sched::park_current()
    } else {
        std::thread::park()
    }
}
pub fn yield_now() {
    if sched::controlled() {
        sched::spin_hint();
        sched::point()
    } else {
        std::thread::yield_now()
    }
}
pub fn sleep(d: std::time::Duration) {
    if sched::controlled() {
        sched::spin_hint();
        sched::point()
    } else {
        std::thread::sleep(d)
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope std::thread::Scope<'scope, 'env>) -> T,
{
    std::thread::scope(|s| {
        sched::push_scope();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(s)));
        sched::join_scope();
        match r {
            Ok(v) => v,
            Err(p) => std::panic::resume_unwind(p),
        }
    })
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn name(mut self, n: impl Into<String>) -> Self {
        self.name = Some(n.into());
        self
    }
    pub fn spawn_scoped_careless<'scope, 'env, F, T>(
        self,
        s: &'scope std::thread::Scope<'scope, 'env>,
        f: F,
    ) -> std::io::Result<std::thread::ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let g = sched::adopt(self.name.as_deref(), f);
        std::thread::Builder::new().stack_size(512 * 1024).spawn_scoped(s, g)
    }
}
pub fn make_builder(_mode: RunMode) -> Builder {
    Builder::default()
}
pub fn spawn_plain<'scope, 'env, F, T>(s: &'scope std::thread::Scope<'scope, 'env>, f: F)
where
    F: FnOnce() -> T + Send + 'scope,
    T: Send + 'scope,
{
    let g = sched::adopt(None, f);
    s.spawn(g);
}

#[macro_export]
macro_rules! spawn {
    ($scope: expr, $builder: expr, $f: expr) => {
        ($builder).spawn_scoped_careless($scope, $f)
    };
    ($scope: expr, $f: expr) => {{
        $crate::spawn_plain($scope, $f);
        Result::<(), ()>::Ok(())
    }};
}
pub use crate::spawn;
