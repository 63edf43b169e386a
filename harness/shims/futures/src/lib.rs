//! Streams of things that are there already, as lib/client uses them; the crate itself is not available offline.
use std::collections::VecDeque;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::task::Poll;

pub trait StreamExt {}

pub mod stream {
    pub use crate::StreamExt;

    pub fn iter<I: IntoIterator>(i: I) -> crate::Items<I::Item> {
        crate::Items(i.into_iter().collect())
    }
}

pub struct Items<T>(VecDeque<T>);

impl<T> Items<T> {
    pub fn chunks(mut self, n: usize) -> Items<Vec<T>> {
        assert!(n > 0);
        let mut out = VecDeque::new();
        while !self.0.is_empty() {
            let k = n.min(self.0.len());
            out.push_back(self.0.drain(..k).collect());
        }
        Items(out)
    }

    pub fn map<U>(self, f: impl FnMut(T) -> U) -> Items<U> {
        Items(self.0.into_iter().map(f).collect())
    }

    pub async fn collect<C: FromIterator<T>>(self) -> C {
        self.0.into_iter().collect()
    }
}

impl<T: Future> Items<T> {
    pub fn buffer_unordered(self, n: usize) -> Buffered<T> {
        Buffered { rest: self.0, n, ordered: false }
    }

    pub fn buffered(self, n: usize) -> Buffered<T> {
        Buffered { rest: self.0, n, ordered: true }
    }
}

/// Futures of which some run at a time.
pub struct Buffered<T> {
    rest: VecDeque<T>,
    n: usize,
    ordered: bool,
}

impl<T: Future> Buffered<T> {
    pub async fn collect<C: FromIterator<T::Output>>(self) -> C {
        let mut rest: VecDeque<(usize, Pin<Box<T>>)> = self.rest.into_iter().map(Box::pin).enumerate().collect();
        let mut running = vec![];
        let mut out = vec![];
        poll_fn(|cx| loop {
            while running.len() < self.n && !rest.is_empty() {
                running.extend(rest.pop_front());
            }
            if running.is_empty() {
                return if rest.is_empty() { Poll::Ready(()) } else { Poll::Pending };
            }
            let before = out.len();
            running.retain_mut(|(i, f)| match f.as_mut().poll(cx) {
                Poll::Ready(x) => {
                    out.push((*i, x));
                    false
                }
                Poll::Pending => true,
            });
            if out.len() == before {
                return Poll::Pending;
            }
        })
        .await;
        if self.ordered {
            out.sort_by_key(|(i, _)| *i);
        }
        out.into_iter().map(|(_, x)| x).collect()
    }
}
