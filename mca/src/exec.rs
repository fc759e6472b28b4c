//! Executor on virtual time: a future is polled once at the start and then only when the wakers it
//! left with the (stand-in) reactor fire, so a missed wake-up shows as an operation that never ends.
use async_io::control;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Instant;
use vcore::explore::catch;
use vcore::world::{self, Arrival};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
pub fn now() -> u64 {
    world::with(|w| w.now()).expect("harness: no world")
}
/// What the executor does besides polling on wake-ups.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Drop the future at its n-th suspension; right away, or when the next event has already
    /// happened but the future has not been polled again.
    pub drop_at: Option<(usize, bool)>,
    /// Poll this much later than the event after the n-th suspension.
    pub late: Option<(usize, u64)>,
    /// Poll without any event at the n-th suspension.
    pub spurious: Option<usize>,
    /// Drop the future once this time has come and only events can wake it.
    pub drop_after: Option<u64>,
    /// Suspensions so far.
    pub pendings: usize,
    /// Whether the operation was waiting for a datagram at the last suspension.
    pub reading: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End<T> {
    Done(T),
    Dropped,
}
impl<T> End<T> {
    pub fn done(self) -> Option<T> {
        match self {
            End::Done(t) => Some(t),
            End::Dropped => None,
        }
    }
}
/// Lets time pass until something wakes someone; false if nothing ever will.
pub fn advance() -> bool {
    let mut best: Option<u64> = None;
    let mut reading = false;
    for (fd, write) in control::interests() {
        reading |= !write;
        if let Some(t) = world::with(|w| w.ready_at(fd, write)).unwrap() {
            best = Some(best.map_or(t, |b| b.min(t)));
        }
    }
    if let Some(at) = control::next_timer() {
        let t = now() + at.saturating_duration_since(Instant::now()).as_nanos() as u64 + world::with(|w| w.late).unwrap();
        best = Some(best.map_or(t, |b| b.min(t)));
    }
    let Some(t) = best else {
        if !reading {
            return false;
        }
        // Nothing is scheduled any more: as for a blocking receive, the socket fails.
        world::with(|w| {
            if w.ended {
                return false;
            }
            w.ended = true;
            let (t, e) = (w.now(), w.end_errno);
            w.net.push(Arrival::error(t, e));
            true
        });
        fire();
        return true;
    };
    world::with(|w| w.net.now = w.net.now.max(t));
    fire();
    true
}
/// Wakes everyone whose event has happened.
pub fn fire() {
    let t = now();
    for (fd, write) in control::interests() {
        if world::with(|w| w.ready_at(fd, write)).unwrap().is_some_and(|r| r <= t) {
            control::fire_io(fd, write);
        }
    }
    control::fire_timers(Instant::now());
}
/// Runs a future inside the installed world.
pub fn drive<T>(fut: impl Future<Output = T>, plan: &mut Plan) -> Result<End<T>, String> {
    let mut fut = Box::pin(fut);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    loop {
        flag.0.store(false, SeqCst);
        if let Poll::Ready(t) = catch(|| fut.as_mut().poll(&mut cx))? {
            catch(|| drop(fut))?;
            if control::waiting() != 0 {
                return Err("harness: the finished operation still waits for something".into());
            }
            return Ok(End::Done(t));
        }
        let n = plan.pendings;
        plan.pendings += 1;
        plan.reading = control::interests().iter().any(|&(_, write)| !write);
        if plan.drop_at == Some((n, false)) || plan.drop_after.is_some_and(|t| now() >= t && !flag.0.load(SeqCst)) {
            break;
        }
        if plan.spurious == Some(n) {
            continue;
        }
        // the future may have woken itself; polling it is not late then
        let waits = !flag.0.load(SeqCst);
        while !flag.0.load(SeqCst) {
            if !advance() {
                return Err(format!("after suspension {n} the operation waits for nothing: it would hang forever"));
            }
        }
        if let Some((k, d)) = plan.late {
            if k == n && waits {
                world::with(|w| w.net.now += d);
                fire();
            }
        }
        if plan.drop_at == Some((n, true)) {
            break;
        }
    }
    catch(|| drop(fut))?;
    Ok(End::Dropped)
}
/// Runs a future that should not be interrupted.
pub fn finish<T>(fut: impl Future<Output = T>) -> Result<T, String> {
    Ok(drive(fut, &mut Plan::default())?.done().unwrap())
}

/// Several futures on one thread; `pick(n)` decides which of n woken ones is polled next.
pub struct Tasks<'a> {
    v: Vec<(Option<Pin<Box<dyn Future<Output = ()> + 'a>>>, Arc<Flag>)>,
}
impl<'a> Tasks<'a> {
    pub fn new() -> Self {
        Tasks { v: vec![] }
    }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'a) {
        self.v.push((Some(Box::pin(f)), Arc::new(Flag(AtomicBool::new(true)))));
    }
    /// Polls until the tasks from index `first` on are done; returns the number of polls.
    pub fn run(&mut self, first: usize, pick: &mut dyn FnMut(usize) -> usize) -> Result<u64, String> {
        let mut polls = 0;
        loop {
            if self.v[first..].iter().all(|t| t.0.is_none()) {
                return Ok(polls);
            }
            let woken: Vec<usize> = (0..self.v.len()).filter(|&i| self.v[i].0.is_some() && self.v[i].1 .0.load(SeqCst)).collect();
            if woken.is_empty() {
                if !advance() {
                    return Err("all tasks wait for nothing: they would hang forever".into());
                }
                continue;
            }
            let i = woken[if woken.len() == 1 { 0 } else { pick(woken.len()) }];
            let t = &mut self.v[i];
            t.1 .0.store(false, SeqCst);
            let waker: Waker = t.1.clone().into();
            polls += 1;
            let f = t.0.as_mut().unwrap();
            if catch(|| f.as_mut().poll(&mut Context::from_waker(&waker)))?.is_ready() {
                t.0 = None;
            }
        }
    }
}
