//! lib/client keeps one of these but never uses it; the crate itself is not available offline.
#[derive(Clone, Debug, Default)]
pub struct Client;

impl Client {
    pub fn new() -> Self {
        Self
    }
}
