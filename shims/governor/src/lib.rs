//! Stand-in for `governor`: a direct rate limiter (GCRA) on a virtual clock that only waiting moves forward.
use std::cell::Cell;
use std::marker::PhantomData;
use std::num::NonZeroU32;
use std::sync::Mutex;
use std::time::Duration;

thread_local! { static NOW: Cell<u128> = const { Cell::new(0) }; }
/// The virtual time of this thread, in nanoseconds.
pub fn virtual_now() -> u128 {
    NOW.with(|n| n.get())
}

pub mod clock {
    #[derive(Clone, Default)]
    pub struct DefaultClock;
}
pub mod state {
    pub struct InMemoryState;
    pub struct NotKeyed;
    pub mod direct {
        pub use super::NotKeyed;
    }
}
pub mod middleware {
    pub struct NoOpMiddleware;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Quota {
    burst: NonZeroU32,
    each: u128,
}
impl Quota {
    pub const fn per_second(n: NonZeroU32) -> Self {
        Self { burst: n, each: 1_000_000_000 / n.get() as u128 }
    }
    pub const fn per_minute(n: NonZeroU32) -> Self {
        Self { burst: n, each: 60_000_000_000 / n.get() as u128 }
    }
    pub const fn per_hour(n: NonZeroU32) -> Self {
        Self { burst: n, each: 3_600_000_000_000 / n.get() as u128 }
    }
    pub fn with_period(d: Duration) -> Option<Self> {
        (!d.is_zero()).then(|| Self { burst: NonZeroU32::MIN, each: d.as_nanos() })
    }
    pub const fn allow_burst(self, burst: NonZeroU32) -> Self {
        Self { burst, ..self }
    }
    pub const fn burst_size(&self) -> NonZeroU32 {
        self.burst
    }
}
#[derive(Debug)]
pub struct NotUntil;
pub struct RateLimiter<K, S, C> {
    quota: Quota,
    tat: Mutex<u128>,
    _p: PhantomData<fn() -> (K, S, C)>,
}
pub type DefaultDirectRateLimiter = RateLimiter<state::NotKeyed, state::InMemoryState, clock::DefaultClock>;
impl RateLimiter<state::NotKeyed, state::InMemoryState, clock::DefaultClock> {
    pub fn direct(quota: Quota) -> Self {
        Self { quota, tat: Mutex::new(0), _p: PhantomData }
    }
    pub fn direct_with_clock(quota: Quota, _: clock::DefaultClock) -> Self {
        Self::direct(quota)
    }
    pub fn check(&self) -> Result<(), NotUntil> {
        let mut tat = self.tat.lock().unwrap();
        let (now, next) = self.next(*tat);
        if now > virtual_now() {
            return Err(NotUntil);
        }
        *tat = next;
        Ok(())
    }
    /// When the next cell is allowed, and the arrival time after it.
    fn next(&self, tat: u128) -> (u128, u128) {
        let now = virtual_now();
        let slack = self.quota.each * (self.quota.burst.get() as u128 - 1);
        let at = now.max(tat.saturating_sub(slack));
        (at, tat.max(at) + self.quota.each)
    }
    pub async fn until_ready(&self) {
        let mut tat = self.tat.lock().unwrap();
        let (at, next) = self.next(*tat);
        *tat = next;
        NOW.with(|n| n.set(at));
    }
}
