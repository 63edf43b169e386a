//! Stand-in for the `default-env` crate, which is not available offline.
#[macro_export]
macro_rules! default_env {
    ($name:expr, $default:expr $(,)?) => {
        $default
    };
}
