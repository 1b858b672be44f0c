//! Timers on the virtual clock.

use pin_project_lite::pin_project;
use std::future::{Future, IntoFuture};
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};

pub use std::time::Duration;

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            "deadline has elapsed".fmt(f)
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> std::io::Error {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant {
    std: std::time::Instant,
}

impl Instant {
    pub fn now() -> Instant {
        Instant { std: std::time::Instant::now() }
    }
    pub fn from_std(std: std::time::Instant) -> Instant {
        Instant { std }
    }
    pub fn into_std(self) -> std::time::Instant {
        self.std
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.std.saturating_duration_since(earlier.std)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.std.checked_duration_since(earlier.std)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.std.saturating_duration_since(earlier.std)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now() - *self
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.std.checked_add(d).map(Instant::from_std)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.std.checked_sub(d).map(Instant::from_std)
    }
}
impl From<std::time::Instant> for Instant {
    fn from(t: std::time::Instant) -> Instant {
        Instant::from_std(t)
    }
}
impl From<Instant> for std::time::Instant {
    fn from(t: Instant) -> std::time::Instant {
        t.std
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, o: Duration) -> Instant {
        Instant::from_std(self.std + o)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, o: Duration) {
        *self = *self + o;
    }
}
impl Sub for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.std.saturating_duration_since(o.std)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, o: Duration) -> Instant {
        Instant::from_std(self.std - o)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, o: Duration) {
        *self = *self - o;
    }
}

/// The deadline is fixed at creation, the timer is armed by the first poll.
#[derive(Debug)]
#[must_use = "futures do nothing unless you `.await` or poll them"]
pub struct Sleep {
    deadline: u64,
    entry: Option<(u64, u64)>,
    _pin: std::marker::PhantomPinned,
}

fn to_ns(d: Duration) -> u64 {
    d.as_nanos().min(u64::MAX as u128 / 2) as u64
}

pub fn sleep(d: Duration) -> Sleep {
    Sleep {
        deadline: mc::now().saturating_add(to_ns(d)),
        entry: None,
        _pin: std::marker::PhantomPinned,
    }
}

pub fn sleep_until(t: Instant) -> Sleep {
    let now = Instant::now();
    sleep(t.saturating_duration_since(now))
}

impl Sleep {
    pub fn deadline(&self) -> Instant {
        let now = mc::now();
        if self.deadline >= now {
            Instant::now() + Duration::from_nanos(self.deadline - now)
        } else {
            Instant::now() - Duration::from_nanos(now - self.deadline)
        }
    }
    pub fn is_elapsed(&self) -> bool {
        mc::now() >= self.deadline
    }
    pub fn reset(self: Pin<&mut Self>, t: Instant) {
        let this = unsafe { self.get_unchecked_mut() };
        if let Some(e) = this.entry.take() {
            mc::timer_cancel(e);
        }
        this.deadline = mc::now() + to_ns(t.saturating_duration_since(Instant::now()));
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = unsafe { self.get_unchecked_mut() };
        if mc::now() >= this.deadline {
            if let Some(e) = this.entry.take() {
                mc::timer_cancel(e);
            }
            return Poll::Ready(());
        }
        match this.entry {
            Some(e) => mc::timer_update(e, cx.waker()),
            None => this.entry = Some(mc::timer_add(this.deadline, cx.waker().clone())),
        }
        Poll::Pending
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(e) = self.entry.take() {
            mc::timer_cancel(e);
        }
    }
}

pin_project! {
    #[must_use = "futures do nothing unless you `.await` or poll them"]
    pub struct Timeout<T> {
        #[pin]
        value: T,
        #[pin]
        delay: Sleep,
    }
}

pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep(d) }
}

pub fn timeout_at<F: IntoFuture>(t: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep_until(t) }
}

impl<T> Timeout<T> {
    pub fn into_inner(self) -> T {
        self.value
    }
}

impl<T: Future> Future for Timeout<T> {
    type Output = Result<T::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = self.project();
        if let Poll::Ready(v) = me.value.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match me.delay.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}

#[derive(Debug)]
pub struct Interval {
    next: Instant,
    period: Duration,
    delay: Pin<Box<Sleep>>,
    behavior: MissedTickBehavior,
}

pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}

pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { next: start, period, delay: Box::pin(sleep_until(start)), behavior: MissedTickBehavior::Burst }
}

impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match self.delay.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let due = self.next;
                let now = Instant::now();
                self.next = match self.behavior {
                    MissedTickBehavior::Burst => due + self.period,
                    MissedTickBehavior::Delay => now + self.period,
                    MissedTickBehavior::Skip => {
                        let mut n = due + self.period;
                        while n <= now {
                            n += self.period;
                        }
                        n
                    }
                };
                self.delay = Box::pin(sleep_until(self.next));
                Poll::Ready(due)
            }
        }
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
        self.delay = Box::pin(sleep_until(self.next));
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.behavior = b;
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.behavior
    }
    pub fn period(&self) -> Duration {
        self.period
    }
}
