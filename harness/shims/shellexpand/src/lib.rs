//! The crate itself is not available offline.
pub fn tilde(path: &str) -> std::borrow::Cow<str> {
    match (path.strip_prefix("~/"), std::env::var("HOME")) {
        (Some(rest), Ok(home)) => format!("{home}/{rest}").into(),
        _ => path.into(),
    }
}
