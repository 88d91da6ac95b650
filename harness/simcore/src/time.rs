//! tokio-like time API on the simulated clock
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub use std::time::Duration;

use crate::world::{now_ns, with, Event, MS};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(std::time::Instant);

impl Instant {
    pub fn now() -> Self {
        Self(std::time::Instant::now())
    }
    pub fn from_std(i: std::time::Instant) -> Self {
        Self(i)
    }
    pub fn into_std(self) -> std::time::Instant {
        self.0
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_duration_since(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_duration_since(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_duration_since(o.0)
    }
    pub fn elapsed(&self) -> Duration {
        self.0.elapsed()
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Self)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Self)
    }
}
impl From<std::time::Instant> for Instant {
    fn from(i: std::time::Instant) -> Self {
        Self(i)
    }
}
impl From<Instant> for std::time::Instant {
    fn from(i: Instant) -> Self {
        i.0
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0.saturating_duration_since(o.0)
    }
}

/// Far in the future, still representable
const FAR: u64 = 30 * 365 * 86_400 * 1_000_000_000;

pub struct Sleep {
    deadline: u64,
    std_deadline: Instant,
    reg: Option<(Arc<AtomicBool>, Waker)>,
}

fn deadline_after(d: Duration) -> u64 {
    let ns = d.as_nanos().min(FAR as u128) as u64;
    let t = now_ns().saturating_add(ns);
    // millisecond granularity, rounded up, like tokio's wheel
    let t = (t + MS - 1) / MS * MS;
    if ns == 0 {
        now_ns()
    } else {
        t + with(|w| w.timer_jitter())
    }
}

pub fn sleep(d: Duration) -> Sleep {
    let now = Instant::now();
    Sleep {
        deadline: deadline_after(d),
        std_deadline: now.checked_add(d).unwrap_or(now),
        reg: None,
    }
}

pub fn sleep_until(i: Instant) -> Sleep {
    sleep(i.saturating_duration_since(Instant::now()))
}

impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.std_deadline
    }
    pub fn is_elapsed(&self) -> bool {
        now_ns() >= self.deadline
    }
    pub fn reset(mut self: Pin<&mut Self>, i: Instant) {
        let d = i.saturating_duration_since(Instant::now());
        self.deadline = deadline_after(d);
        self.std_deadline = i;
        if let Some((c, _)) = self.reg.take() {
            c.store(true, Ordering::Relaxed);
        }
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now_ns() >= self.deadline {
            if let Some((c, _)) = self.reg.take() {
                c.store(true, Ordering::Relaxed);
            }
            return Poll::Ready(());
        }
        let need = match &self.reg {
            Some((_, w)) => !w.will_wake(cx.waker()),
            None => true,
        };
        if need {
            if let Some((c, _)) = self.reg.take() {
                c.store(true, Ordering::Relaxed);
            }
            let c = Arc::new(AtomicBool::new(false));
            let w = cx.waker().clone();
            let at = self.deadline;
            with(|wd| wd.at(at, Event::Wake(w.clone(), c.clone())));
            self.reg = Some((c, w));
        }
        Poll::Pending
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some((c, _)) = self.reg.take() {
            c.store(true, Ordering::Relaxed);
        }
    }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(super) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub struct Timeout<F> {
    fut: F,
    sleep: Sleep,
}

pub fn timeout<F: Future>(d: Duration, fut: F) -> Timeout<F> {
    Timeout { fut, sleep: sleep(d) }
}

pub fn timeout_at<F: Future>(i: Instant, fut: F) -> Timeout<F> {
    Timeout { fut, sleep: sleep_until(i) }
}

impl<F> Timeout<F> {
    pub fn get_ref(&self) -> &F {
        &self.fut
    }
    pub fn into_inner(self) -> F {
        self.fut
    }
}

impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // SAFETY: both fields are structurally pinned, never moved out
        let this = unsafe { self.get_unchecked_mut() };
        let fut = unsafe { Pin::new_unchecked(&mut this.fut) };
        if let Poll::Ready(v) = fut.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        let sl = unsafe { Pin::new_unchecked(&mut this.sleep) };
        match sl.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}

pub struct Interval {
    period: Duration,
    next: Instant,
    sleep: Pin<Box<Sleep>>,
    missed: MissedTickBehavior,
}

pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}

pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::ZERO, "`period` must be non-zero.");
    Interval { period, next: start, sleep: Box::pin(sleep_until(start)), missed: Default::default() }
}

impl Interval {
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
        self.sleep = Box::pin(sleep_until(self.next));
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match self.sleep.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let t = self.next;
                let now = Instant::now();
                self.next = match self.missed {
                    MissedTickBehavior::Burst => t + self.period,
                    MissedTickBehavior::Delay => now + self.period,
                    MissedTickBehavior::Skip => {
                        let mut n = t + self.period;
                        while n < now {
                            n += self.period;
                        }
                        n
                    }
                };
                self.sleep = Box::pin(sleep_until(self.next));
                Poll::Ready(t)
            }
        }
    }
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
}
