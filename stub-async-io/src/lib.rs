//! Stand-in for async-io 2.x: the same interface, but no reactor thread. Sockets do real
//! non-blocking system calls (which the checks intercept); who waits for what is recorded in a
//! thread-local table that the checks' executor fires (`control`).
use std::future::Future;
use std::io;
use std::mem::ManuallyDrop;
use std::net::{SocketAddr, UdpSocket};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

pub mod control {
    use super::*;
    use std::cell::RefCell;

    #[derive(Default)]
    pub(crate) struct Table {
        pub io: Vec<(u64, RawFd, bool, Waker)>,
        pub timers: Vec<(u64, Instant, Waker)>,
        pub next: u64,
    }
    thread_local! { static T: RefCell<Table> = RefCell::new(Table::default()); }
    pub(crate) fn with<R>(f: impl FnOnce(&mut Table) -> R) -> Option<R> {
        T.try_with(|t| f(&mut t.borrow_mut())).ok()
    }
    pub(crate) fn id() -> u64 {
        with(|t| {
            t.next += 1;
            t.next
        })
        .unwrap_or(0)
    }
    /// Descriptors waited for, and whether for writing.
    pub fn interests() -> Vec<(RawFd, bool)> {
        with(|t| t.io.iter().map(|x| (x.1, x.2)).collect()).unwrap_or_default()
    }
    pub fn next_timer() -> Option<Instant> {
        with(|t| t.timers.iter().map(|x| x.1).min()).flatten()
    }
    /// Wakes whoever waits for the descriptor.
    pub fn fire_io(fd: RawFd, write: bool) {
        let v = with(|t| take(&mut t.io, |x| x.1 == fd && x.2 == write)).unwrap_or_default();
        v.into_iter().for_each(|x| x.3.wake());
    }
    /// Wakes whoever waits for a time up to `now`.
    pub fn fire_timers(now: Instant) {
        let v = with(|t| take(&mut t.timers, |x| x.1 <= now)).unwrap_or_default();
        v.into_iter().for_each(|x| x.2.wake());
    }
    pub fn reset() {
        let old = with(std::mem::take);
        drop(old);
    }
    pub fn waiting() -> usize {
        with(|t| t.io.len() + t.timers.len()).unwrap_or(0)
    }
    pub(crate) fn take<T>(v: &mut Vec<T>, f: impl Fn(&T) -> bool) -> Vec<T> {
        let (a, b) = std::mem::take(v).into_iter().partition(|x| f(x));
        *v = b;
        a
    }
}

fn would_block(e: &io::Error) -> bool {
    e.kind() == io::ErrorKind::WouldBlock
}

struct Owned<T> {
    ready: Ready,
    _io: Arc<Async<T>>,
}
impl<T> Future for Owned<T> {
    type Output = io::Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.ready).poll(cx)
    }
}
/// Waits until an event has fired since it was first polled.
#[derive(Debug)]
struct Ready {
    id: u64,
    fd: RawFd,
    write: bool,
    armed: bool,
}
impl Ready {
    fn new(fd: RawFd, write: bool) -> Self {
        Ready { id: control::id(), fd, write, armed: false }
    }
}
impl Future for Ready {
    type Output = io::Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (id, fd, write) = (self.id, self.fd, self.write);
        let waiting = control::with(|t| match t.io.iter_mut().find(|x| x.0 == id) {
            Some(x) => {
                x.3 = cx.waker().clone();
                true
            }
            None => false,
        })
        .unwrap_or(false);
        if waiting {
            return Poll::Pending;
        }
        if self.armed {
            self.armed = false;
            return Poll::Ready(Ok(()));
        }
        self.armed = true;
        control::with(|t| t.io.push((id, fd, write, cx.waker().clone())));
        Poll::Pending
    }
}
impl Drop for Ready {
    fn drop(&mut self) {
        let id = self.id;
        let old = control::with(|t| control::take(&mut t.io, |x| x.0 == id));
        drop(old);
    }
}
/// As in async-io: one wait, after which the operation is tried again.
async fn optimistic(mut f: Ready) -> io::Result<()> {
    let mut polled = false;
    std::future::poll_fn(move |cx| {
        if !polled {
            polled = true;
            Pin::new(&mut f).poll(cx)
        } else {
            Poll::Ready(Ok(()))
        }
    })
    .await
}

#[derive(Debug)]
pub struct Async<T> {
    io: ManuallyDrop<T>,
    fd: RawFd,
    taken: bool,
    polled: [Mutex<Option<Ready>>; 2],
}
impl<T> Unpin for Async<T> {}
impl<T: AsFd> Async<T> {
    pub fn new(io: T) -> io::Result<Async<T>> {
        set_nonblocking(io.as_fd())?;
        Self::new_nonblocking(io)
    }
    pub fn new_nonblocking(io: T) -> io::Result<Async<T>> {
        let fd = io.as_fd().as_raw_fd();
        Ok(Async { io: ManuallyDrop::new(io), fd, taken: false, polled: Default::default() })
    }
}
fn set_nonblocking(fd: BorrowedFd<'_>) -> io::Result<()> {
    // The descriptor stays with its owner.
    let s = ManuallyDrop::new(unsafe { <UdpSocket as std::os::fd::FromRawFd>::from_raw_fd(fd.as_raw_fd()) });
    s.set_nonblocking(true)
}
impl<T: AsRawFd> AsRawFd for Async<T> {
    fn as_raw_fd(&self) -> RawFd {
        self.io.as_raw_fd()
    }
}
impl<T: AsFd> AsFd for Async<T> {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.io.as_fd()
    }
}
impl<T: AsFd + From<OwnedFd>> TryFrom<OwnedFd> for Async<T> {
    type Error = io::Error;
    fn try_from(v: OwnedFd) -> io::Result<Self> {
        Async::new(v.into())
    }
}
impl<T> AsRef<T> for Async<T> {
    fn as_ref(&self) -> &T {
        &self.io
    }
}
impl<T> Async<T> {
    pub fn get_ref(&self) -> &T {
        &self.io
    }
    /// # Safety
    /// As in async-io: the descriptor must not be replaced.
    pub unsafe fn get_mut(&mut self) -> &mut T {
        &mut self.io
    }
    pub fn into_inner(mut self) -> io::Result<T> {
        self.taken = true;
        Ok(unsafe { ManuallyDrop::take(&mut self.io) })
    }
    pub fn readable(&self) -> impl Future<Output = io::Result<()>> + '_ {
        Ready::new(self.fd, false)
    }
    pub fn writable(&self) -> impl Future<Output = io::Result<()>> + '_ {
        Ready::new(self.fd, true)
    }
    pub fn readable_owned(self: Arc<Self>) -> impl Future<Output = io::Result<()>> {
        Owned { ready: Ready::new(self.fd, false), _io: self }
    }
    pub fn writable_owned(self: Arc<Self>) -> impl Future<Output = io::Result<()>> {
        Owned { ready: Ready::new(self.fd, true), _io: self }
    }
    pub fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_ready(false, cx)
    }
    pub fn poll_writable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_ready(true, cx)
    }
    /// Ready once an event has fired since it was last polled; one task at a time.
    fn poll_ready(&self, write: bool, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut slot = self.polled[write as usize].lock().unwrap();
        let r = slot.get_or_insert_with(|| Ready::new(self.fd, write));
        let res = Pin::new(r).poll(cx);
        if res.is_ready() {
            *slot = None;
        }
        res
    }
    pub async unsafe fn read_with_mut<R>(&mut self, op: impl FnMut(&mut T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            match op(&mut self.io) {
                Err(e) if would_block(&e) => {}
                r => return r,
            }
            optimistic(Ready::new(self.fd, false)).await?;
        }
    }
    pub async unsafe fn write_with_mut<R>(&mut self, op: impl FnMut(&mut T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            match op(&mut self.io) {
                Err(e) if would_block(&e) => {}
                r => return r,
            }
            optimistic(Ready::new(self.fd, true)).await?;
        }
    }
    pub async fn read_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(e) if would_block(&e) => {}
                r => return r,
            }
            optimistic(Ready::new(self.fd, false)).await?;
        }
    }
    pub async fn write_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(e) if would_block(&e) => {}
                r => return r,
            }
            optimistic(Ready::new(self.fd, true)).await?;
        }
    }
}
impl<T> Drop for Async<T> {
    fn drop(&mut self) {
        if !self.taken {
            unsafe { ManuallyDrop::drop(&mut self.io) };
        }
    }
}
impl<T: AsFd + Into<OwnedFd>> TryFrom<Async<T>> for OwnedFd {
    type Error = io::Error;
    fn try_from(v: Async<T>) -> io::Result<OwnedFd> {
        v.into_inner().map(Into::into)
    }
}
impl TryFrom<UdpSocket> for Async<UdpSocket> {
    type Error = io::Error;
    fn try_from(s: UdpSocket) -> io::Result<Self> {
        Async::new(s)
    }
}
impl Async<UdpSocket> {
    pub fn bind<A: Into<SocketAddr>>(addr: A) -> io::Result<Async<UdpSocket>> {
        Async::new(UdpSocket::bind(addr.into())?)
    }
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.read_with(|io| io.recv_from(buf)).await
    }
    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.read_with(|io| io.peek_from(buf)).await
    }
    pub async fn send_to<A: Into<SocketAddr>>(&self, buf: &[u8], addr: A) -> io::Result<usize> {
        let addr = addr.into();
        self.write_with(|io| io.send_to(buf, addr)).await
    }
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_with(|io| io.recv(buf)).await
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_with(|io| io.peek(buf)).await
    }
    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        self.write_with(|io| io.send(buf)).await
    }
}

#[derive(Debug)]
pub struct Timer {
    id: u64,
    when: Option<Instant>,
    period: Duration,
}
impl Timer {
    fn make(when: Option<Instant>, period: Duration) -> Timer {
        Timer { id: control::id(), when, period }
    }
    pub fn never() -> Timer {
        Self::make(None, Duration::MAX)
    }
    pub fn after(d: Duration) -> Timer {
        Self::make(Instant::now().checked_add(d), Duration::MAX)
    }
    pub fn at(when: Instant) -> Timer {
        Self::make(Some(when), Duration::MAX)
    }
    pub fn interval(period: Duration) -> Timer {
        Self::make(Instant::now().checked_add(period), period)
    }
    pub fn interval_at(start: Instant, period: Duration) -> Timer {
        Self::make(Some(start), period)
    }
    pub fn will_fire(&self) -> bool {
        self.when.is_some()
    }
    pub fn set_after(&mut self, d: Duration) {
        self.set(Instant::now().checked_add(d), Duration::MAX)
    }
    pub fn set_at(&mut self, when: Instant) {
        self.set(Some(when), Duration::MAX)
    }
    pub fn set_interval(&mut self, period: Duration) {
        self.set(Instant::now().checked_add(period), period)
    }
    pub fn set_interval_at(&mut self, start: Instant, period: Duration) {
        self.set(Some(start), period)
    }
    pub fn clear(&mut self) {
        self.set(None, Duration::MAX)
    }
    fn set(&mut self, when: Option<Instant>, period: Duration) {
        let id = self.id;
        self.when = when;
        self.period = period;
        control::with(|t| {
            t.timers.retain_mut(|x| match when {
                Some(w) if x.0 == id => {
                    x.1 = w;
                    true
                }
                None => x.0 != id,
                _ => true,
            })
        });
    }
    fn fire(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        let id = self.id;
        let old = control::with(|t| control::take(&mut t.timers, |x| x.0 == id));
        drop(old);
        let Some(when) = self.when else { return Poll::Pending };
        if Instant::now() >= when {
            self.when = when.checked_add(self.period).filter(|_| self.period != Duration::MAX);
            return Poll::Ready(when);
        }
        control::with(|t| t.timers.push((id, when, cx.waker().clone())));
        Poll::Pending
    }
}
impl Future for Timer {
    type Output = Instant;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Instant> {
        self.fire(cx)
    }
}
impl futures_lite::Stream for Timer {
    type Item = Instant;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Instant>> {
        self.fire(cx).map(Some)
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        let id = self.id;
        let old = control::with(|t| control::take(&mut t.timers, |x| x.0 == id));
        drop(old);
    }
}

/// Not used by the library; futures here are driven by the checks' executor.
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    futures_lite::future::block_on(f)
}
