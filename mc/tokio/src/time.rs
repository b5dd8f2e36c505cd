//! Virtual time: `std::time::Instant` is virtual inside an execution because the
//! harness interposes `clock_gettime`; timers fire when nothing else can run.
pub use std::time::Duration;
use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Eq, PartialEq, PartialOrd, Ord, Hash)]
pub struct Instant(std::time::Instant);

impl Instant {
    pub fn now() -> Instant {
        Instant(std::time::Instant::now())
    }
    pub fn from_std(std: std::time::Instant) -> Instant {
        Instant(std)
    }
    pub fn into_std(self) -> std::time::Instant {
        self.0
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_duration_since(earlier.0)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.0.checked_duration_since(earlier.0)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_duration_since(earlier.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().saturating_duration_since(*self)
    }
    pub fn checked_add(&self, duration: Duration) -> Option<Instant> {
        self.0.checked_add(duration).map(Instant)
    }
    pub fn checked_sub(&self, duration: Duration) -> Option<Instant> {
        self.0.checked_sub(duration).map(Instant)
    }
    /// in virtual nanoseconds
    fn nanos(&self) -> u64 {
        let now = std::time::Instant::now();
        let v = mccore::now();
        match self.0.checked_duration_since(now) {
            Some(d) => v.saturating_add(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 2)),
            None => {
                let d = now.saturating_duration_since(self.0);
                v.saturating_sub(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX))
            }
        }
    }
}

impl From<std::time::Instant> for Instant {
    fn from(t: std::time::Instant) -> Instant {
        Instant(t)
    }
}
impl From<Instant> for std::time::Instant {
    fn from(t: Instant) -> std::time::Instant {
        t.0
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, o: Duration) -> Instant {
        Instant(self.0 + o)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, o: Duration) {
        *self = *self + o;
    }
}
impl Sub for Instant {
    type Output = Duration;
    fn sub(self, rhs: Instant) -> Duration {
        self.0.saturating_duration_since(rhs.0)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, rhs: Duration) -> Instant {
        Instant(self.0 - rhs)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, rhs: Duration) {
        *self = *self - rhs;
    }
}
impl fmt::Debug for Instant {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub struct Sleep {
    deadline: Instant,
    key: Option<(u64, u64)>,
    _pin: std::marker::PhantomPinned,
}

impl fmt::Debug for Sleep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Sleep").finish()
    }
}

fn far_future() -> Instant {
    Instant::now() + Duration::from_secs(86400 * 365 * 30)
}

pub fn sleep(duration: Duration) -> Sleep {
    let d = Instant::now().checked_add(duration).unwrap_or_else(far_future);
    sleep_until(d)
}

pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep { deadline, key: None, _pin: std::marker::PhantomPinned }
}

impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        self.deadline <= Instant::now()
    }
    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        // Safety: nothing is moved.
        let s = unsafe { self.get_unchecked_mut() };
        s.deadline = deadline;
        if let Some(k) = s.key.take() {
            mccore::timer_cancel(k)
        }
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if !mccore::coop_take("sleep") {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        // Safety: nothing is moved.
        let s = unsafe { self.get_unchecked_mut() };
        if let Some(k) = s.key.take() {
            mccore::timer_cancel(k)
        }
        if s.is_elapsed() {
            return Poll::Ready(());
        }
        s.key = mccore::timer_register(s.deadline.nanos(), cx.waker());
        mccore::coop_restore();
        Poll::Pending
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            mccore::timer_cancel(k)
        }
    }
}

pub mod error {
    #[derive(Debug, PartialEq)]
    pub struct Elapsed(pub(super) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> std::io::Error {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

pub struct Timeout<T> {
    value: T,
    delay: Sleep,
}

impl<T> fmt::Debug for Timeout<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Timeout").finish()
    }
}

impl<T> Timeout<T> {
    pub fn get_ref(&self) -> &T {
        &self.value
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.value
    }
    pub fn into_inner(self) -> T {
        self.value
    }
}

pub fn timeout<T: Future>(duration: Duration, future: T) -> Timeout<T> {
    Timeout { value: future, delay: sleep(duration) }
}

pub fn timeout_at<T: Future>(deadline: Instant, future: T) -> Timeout<T> {
    Timeout { value: future, delay: sleep_until(deadline) }
}

impl<T: Future> Future for Timeout<T> {
    type Output = Result<T::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // Safety: structural pinning of both fields.
        let s = unsafe { self.get_unchecked_mut() };
        let value = unsafe { Pin::new_unchecked(&mut s.value) };
        if let Poll::Ready(v) = value.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        let delay = unsafe { Pin::new_unchecked(&mut s.delay) };
        match delay.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}

impl Default for MissedTickBehavior {
    fn default() -> Self {
        Self::Burst
    }
}

#[derive(Debug)]
pub struct Interval {
    delay: Pin<Box<Sleep>>,
    period: Duration,
    missed: MissedTickBehavior,
}

pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}

pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { delay: Box::pin(sleep_until(start)), period, missed: Default::default() }
}

impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        if self.delay.as_mut().poll(cx).is_pending() {
            return Poll::Pending;
        }
        let timeout = self.delay.deadline();
        let now = Instant::now();
        let next = if now > timeout + Duration::from_millis(5) {
            match self.missed {
                MissedTickBehavior::Burst => timeout + self.period,
                MissedTickBehavior::Delay => now + self.period,
                MissedTickBehavior::Skip => {
                    let p = self.period.as_nanos();
                    let over = (now - timeout).as_nanos() % p;
                    now + self.period - Duration::from_nanos(over as u64)
                }
            }
        } else {
            timeout + self.period
        };
        self.delay.as_mut().reset(next);
        Poll::Ready(timeout)
    }
    pub fn reset(&mut self) {
        let d = Instant::now() + self.period;
        self.delay.as_mut().reset(d);
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b
    }
    pub fn period(&self) -> Duration {
        self.period
    }
}
