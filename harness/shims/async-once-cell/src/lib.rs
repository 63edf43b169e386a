//! A value computed once, by a future; the crate itself is not available offline.
pub mod unpin {
    use std::future::{poll_fn, Future};
    use std::pin::Pin;
    use std::sync::{Mutex, OnceLock};
    use std::task::{Poll, Waker};

    type Job<T> = Pin<Box<dyn Future<Output = T> + Send>>;

    pub struct Lazy<T> {
        job: Mutex<(Option<Job<T>>, Vec<Waker>)>,
        value: OnceLock<T>,
    }

    impl<T> Lazy<T> {
        pub fn new(job: Job<T>) -> Self {
            Self { job: Mutex::new((Some(job), vec![])), value: OnceLock::new() }
        }

        pub async fn get(&self) -> &T {
            poll_fn(|cx| {
                let mut g = self.job.lock().unwrap();
                if let Some(job) = g.0.as_mut() {
                    match job.as_mut().poll(cx) {
                        Poll::Pending => {
                            g.1.push(cx.waker().clone());
                            return Poll::Pending;
                        }
                        Poll::Ready(v) => {
                            self.value.set(v).ok();
                            g.0 = None;
                            g.1.drain(..).for_each(Waker::wake);
                        }
                    }
                }
                Poll::Ready(())
            })
            .await;
            self.value.get().unwrap()
        }
    }
}
