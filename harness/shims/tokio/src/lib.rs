//! Tasks and timers on a clock that is set by hand; the crate itself is not available offline.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::time::Duration;

type Task = Pin<Box<dyn Future<Output = ()>>>;

thread_local! {
    static NOW: Cell<Duration> = Cell::new(Duration::ZERO);
    static TASKS: RefCell<Vec<Task>> = RefCell::new(vec![]);
}

/// Sets the clock.
pub fn set_clock(t: Duration) {
    NOW.with(|n| n.set(t));
}

/// The tasks started since last asked.
pub fn take_tasks() -> Vec<Task> {
    TASKS.with(|t| t.take())
}

pub struct JoinHandle;

pub fn spawn<F: Future<Output = ()> + 'static>(f: F) -> JoinHandle {
    TASKS.with(|t| t.borrow_mut().push(Box::pin(f)));
    JoinHandle
}

pub mod time {
    use crate::NOW;
    use std::future::poll_fn;
    use std::task::Poll;
    pub use std::time::Duration;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(Duration);

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum MissedTickBehavior {
        Burst,
        Delay,
        Skip,
    }

    pub struct Interval {
        period: Duration,
        next: Duration,
        missed: MissedTickBehavior,
    }

    fn now() -> Duration {
        NOW.with(|n| n.get())
    }

    async fn until(t: Duration) {
        poll_fn(|_| if now() >= t { Poll::Ready(()) } else { Poll::Pending }).await
    }

    pub fn interval(period: Duration) -> Interval {
        assert!(!period.is_zero());
        Interval { period, next: now(), missed: MissedTickBehavior::Burst }
    }

    pub async fn sleep(d: Duration) {
        until(now() + d).await
    }

    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let at = self.next;
            until(at).await;
            self.next = match self.missed {
                MissedTickBehavior::Burst => at + self.period,
                MissedTickBehavior::Delay => now() + self.period,
                MissedTickBehavior::Skip => {
                    let n = (now() - at).as_nanos() / self.period.as_nanos();
                    at + self.period * (n as u32 + 1)
                }
            };
            Instant(at)
        }

        pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
            self.missed = m;
        }
    }
}
