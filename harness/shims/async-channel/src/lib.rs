//! The sending end of a channel, as far as lib/client uses it; the crate itself is not available offline.
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

pub struct SendError<T>(pub T);

impl<T> std::fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "SendError(..)")
    }
}

#[derive(Debug)]
pub enum TrySendError<T> {
    Full(T),
    Closed(T),
}

struct Queue<T> {
    items: VecDeque<T>,
    room: usize,
    open: bool,
}

pub struct Sender<T>(Arc<Mutex<Queue<T>>>);
pub struct Receiver<T>(Arc<Mutex<Queue<T>>>);

pub fn bounded<T>(room: usize) -> (Sender<T>, Receiver<T>) {
    let q = Arc::new(Mutex::new(Queue { items: VecDeque::new(), room, open: true }));
    (Sender(q.clone()), Receiver(q))
}

impl<T> Sender<T> {
    pub fn try_send(&self, x: T) -> Result<(), TrySendError<T>> {
        let mut q = self.0.lock().unwrap();
        if !q.open {
            Err(TrySendError::Closed(x))
        } else if q.items.len() >= q.room {
            Err(TrySendError::Full(x))
        } else {
            q.items.push_back(x);
            Ok(())
        }
    }

    pub async fn send(&self, x: T) -> Result<(), SendError<T>> {
        self.try_send(x).map_err(|e| match e {
            TrySendError::Full(x) | TrySendError::Closed(x) => SendError(x),
        })
    }
}

impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Option<T> {
        self.0.lock().unwrap().items.pop_front()
    }

    pub fn close(&self) {
        self.0.lock().unwrap().open = false;
    }
}
