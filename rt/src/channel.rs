//! crossbeam channels whose operations are scheduling points and whose blocking is visible to the scheduler.
pub use crossbeam::channel::{
    RecvError, RecvTimeoutError, SendError, SendTimeoutError, TryRecvError, TrySendError,
};

use crate::sched::{block_on, controlled, new_key, point, soft_point, torn_down, wake};
use crossbeam::channel as cb;

pub struct Sender<T> {
    inner: Option<cb::Sender<T>>,
    key: u64,
}
pub struct Receiver<T> {
    inner: Option<cb::Receiver<T>>,
    key: u64,
}

fn pair<T>((s, r): (cb::Sender<T>, cb::Receiver<T>)) -> (Sender<T>, Receiver<T>) {
    let key = new_key();
    (Sender { inner: Some(s), key }, Receiver { inner: Some(r), key })
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    pair(cb::bounded(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    pair(cb::unbounded())
}

impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sender")
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Receiver")
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender { inner: self.inner.clone(), key: self.key }
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        Receiver { inner: self.inner.clone(), key: self.key }
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if controlled() {
            soft_point();
        }
        self.inner = None;
        wake(self.key);
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if controlled() {
            soft_point();
        }
        self.inner = None;
        wake(self.key);
    }
}

impl<T> Sender<T> {
    fn i(&self) -> &cb::Sender<T> {
        self.inner.as_ref().unwrap()
    }
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        if !controlled() {
            return self.i().send(msg);
        }
        point();
        let mut msg = msg;
        loop {
            match self.i().try_send(msg) {
                Ok(()) => {
                    wake(self.key);
                    return Ok(());
                }
                Err(TrySendError::Disconnected(m)) => return Err(SendError(m)),
                Err(TrySendError::Full(m)) => {
                    msg = m;
                    if !block_on(self.key, "channel full") {
                        return Err(SendError(msg));
                    }
                }
            }
        }
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        point();
        let r = self.i().try_send(msg);
        wake(self.key);
        r
    }
    pub fn len(&self) -> usize {
        soft_point();
        self.i().len()
    }
    pub fn is_empty(&self) -> bool {
        soft_point();
        self.i().is_empty()
    }
    pub fn is_full(&self) -> bool {
        soft_point();
        self.i().is_full()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.i().capacity()
    }
    pub fn same_channel(&self, other: &Sender<T>) -> bool {
        self.i().same_channel(other.i())
    }
}

impl<T> Receiver<T> {
    fn i(&self) -> &cb::Receiver<T> {
        self.inner.as_ref().unwrap()
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        if !controlled() {
            return self.i().recv();
        }
        point();
        loop {
            match self.i().try_recv() {
                Ok(v) => {
                    wake(self.key);
                    return Ok(v);
                }
                Err(TryRecvError::Disconnected) => return Err(RecvError),
                Err(TryRecvError::Empty) => {
                    if !block_on(self.key, "channel empty") {
                        return Err(RecvError);
                    }
                }
            }
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        if controlled() {
            point();
            if torn_down() {
                return Err(TryRecvError::Disconnected);
            }
        }
        let r = self.i().try_recv();
        if r.is_ok() {
            wake(self.key);
        }
        r
    }
    pub fn recv_timeout(&self, t: std::time::Duration) -> Result<T, RecvTimeoutError> {
        if !controlled() {
            return self.i().recv_timeout(t);
        }
        match self.try_recv() {
            Ok(v) => Ok(v),
            Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
            Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
        }
    }
    pub fn len(&self) -> usize {
        soft_point();
        self.i().len()
    }
    pub fn is_empty(&self) -> bool {
        soft_point();
        self.i().is_empty()
    }
    pub fn is_full(&self) -> bool {
        soft_point();
        self.i().is_full()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.i().capacity()
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.recv().ok())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.try_recv().ok())
    }
}
